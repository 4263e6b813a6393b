"""The descriptive fields of a measurement file are its metadata; texts and time stamps handed to the writers are in the file."""
import io
import struct
from datetime import datetime
from fractions import Fraction
from .common import H, flatten
from .c21 import E32
from .c22 import Blob, Gwy, IMG, RGB, Refused, card, fits_block, load, pad, sur_object, zipped, vk4_bytes
NOTE = 'files built byte by byte from the format descriptions; numbers arbitrary within their type (stand-ins, symx/sio.py), dates and texts enumerated'
DATES = [(2021, 3, 4, 5, 6, 7), (1999, 12, 31, 23, 59, 58), (2024, 2, 29, 0, 0, 0), (2000, 11, 1, 12, 30, 9)]
LATIN = ['comment', '', 'Größe µm', 'two words', ' in  dent\nline']


def date(env):
    return datetime(*env.choice('date', DATES))


def equal(env, m, key, want, eps=None):
    """metadata entry key is want: numbers as stored, texts without padding, dates as datetime"""
    if not env.concrete(f'{key} present', key in m, str(sorted(map(str, m)))):
        return
    got = m[key]
    if isinstance(want, (str, bytes, datetime, bool)):
        env.concrete(key, type(got) is type(want) and got == want, f'{got!r} instead of {want!r}')
    elif isinstance(want, (tuple, list)):
        env.concrete(f'{key}: number of values', isinstance(got, (tuple, list)) and len(got) == len(want), repr(got))
        for g, w in zip(got, want):
            number(env, key, g, w, eps)
    else:
        env.concrete(f'{key} is a number', not isinstance(got, (str, bytes)), repr(got))
        number(env, key, got, want, eps)


def number(env, key, got, want, eps):
    if eps:
        env.close(key, env.num(got), want, eps, env.abs(want) + (Fraction(1, 10 ** 6) if env.symbolic else 1e-6))
    else:
        env.eq(key, env.num(got), want)


def flat(env, r, ny, nx, want=None):
    env.concrete('size', tuple(r.data.shape) == (ny, nx), str(r.data.shape))


def num(env, k, name):
    """an arbitrary number of the type"""
    if k in 'fd':
        return env.real(name, -1000, 1000)
    return env.int_(name, *{'h': (-32768, 32767), 'H': (0, 65535), 'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1), 'B': (0, 255), 'b': (-128, 127), 'l': (-2 ** 31, 2 ** 31 - 1)}[k])


def apart(env, r, again):
    """the metadata are the object's own"""
    q = again()
    env.concrete('metadata not shared', q.metadata is not r.metadata)
    n = len(q.metadata)
    r.metadata['new'] = 1
    env.concrete('metadata independent', len(q.metadata) == n and 'new' not in q.metadata and 'new' not in again().metadata)


# ------------------------------------------------------------------------------------------------ formats
def vk(env, suffix):
    d = date(env)
    title = env.choice('title', ['title', '', ' in  dent\nline', 'Größe µm', '測定データ 1', 'x' * 300])
    lens = env.choice('lens', ['Plan 50x', '', '対物'])
    zoom, mag = env.int_('zoom', 0, 10 ** 6), env.int_('mag', 0, 10 ** 6)
    b, *_ = vk4_bytes(env, [[1, 2, 3], [4, 5, 6]], 16, 10 ** 6, 10 ** 6, 100)
    f = Blob(env, 0)
    f.raw(0, b)
    for k, v in enumerate((d.year, d.month, d.day, d.hour, d.minute, d.second)):
        f.put(84 + 4 + 4 * k, '<I', v)
    f.put(84 + 72, '<I', zoom)
    f.put(84 + 96, '<I', mag)
    st, = struct.unpack('<I', bytes(f.b[76:80]))
    del f.b[st:]
    f.raw(st, struct.pack('<I', len(title)) + title.encode('utf-16-le') + struct.pack('<I', len(lens)) + lens.encode('utf-16-le') + b'tail')
    b = f.done()
    if suffix != '.vk4':
        b = suffix[1:].upper().encode() + b'\0' * 7 + zipped({'Vk4File': b, 'other': b'abc'})
    get = lambda: load(env, b, suffix, 'format')
    r = get()
    m = r.metadata
    equal(env, m, 'title', title)
    equal(env, m, 'lens_name', lens)
    equal(env, m, 'timestamp', d)
    F = Fraction(1, 10) if env.symbolic else 0.1
    equal(env, m, 'optical_zoom', zoom * F, E32)
    equal(env, m, 'objective_magnification', mag * F, E32)
    flat(env, r, 2, 3)
    apart(env, r, get)


def nms(env):
    d = date(env)
    f = Blob(env, 3468)
    f.put(16, '<2d', 0.0, 1.0)
    f.raw(1076, d.strftime('%Y-%m-%dT%H:%M').encode())
    f.put(1368, '<2I', 2, 2)
    f.put(1376, '<2d', 1000.0, 1000.0)
    f.raw(3468, struct.pack('<4H', 1, 2, 3, 4))
    r = load(env, f.done(), '.nms')
    equal(env, r.metadata, 'date', d.replace(second=0))
    flat(env, r, 2, 2)


def plu(env):
    d = date(env)
    f = Blob(env, 500)
    f.raw(0, d.strftime('%a %b %d %H:%M:%S %Y').encode())
    f.put(388, '<3I', 2, 3, 1)
    f.put(404, '<2f', 1.0, 1.0)
    f.raw(500, struct.pack('<6f', *range(6)))
    r = load(env, f.done(), '.plu')
    equal(env, r.metadata, 'timestamp', d)
    flat(env, r, 2, 3)


def plux(env):
    d = date(env)
    items = [('Device', 'S neox'), ('Objective', ' 50x &lt;air&gt; '), ('Measurement Type', 'µm'), ('Algorithm', 'SND'), ('Technique', 'Confocal'), ('Comment', ' two words')]
    k = env.concint('items', 0, 6)
    xml = f'<?xml version="1.0" encoding="UTF-8"?><xml><GENERAL><DATE>{d}</DATE><IMAGE_SIZE_X>3</IMAGE_SIZE_X><IMAGE_SIZE_Y>2</IMAGE_SIZE_Y><FOV_X>1.5</FOV_X><FOV_Y>2.5</FOV_Y></GENERAL><INFO>' \
        + ''.join(f'<ITEM_{i}><NAME> {n}</NAME><VALUE>{v}</VALUE></ITEM_{i}>' for i, (n, v) in enumerate(items[:k])) + '</INFO></xml>'
    r = load(env, zipped({'LAYER_0.raw': struct.pack('<6f', *range(6)), 'index.xml': xml}), '.plux')
    equal(env, r.metadata, 'timestamp', d)
    for i, (n, v) in enumerate(items):
        if i < k:
            equal(env, r.metadata, n.lower(), v.strip().replace('&lt;', '<').replace('&gt;', '>'))
        else:
            env.concrete(f'no {n}', n.lower() not in r.metadata)
    flat(env, r, 2, 3)


def os3d(env):
    d = date(env)
    name = env.choice('name', ['Sample', 'x', 'Größe'])
    raw = name.encode()
    when = d.strftime('%Y-%m-%d %H:%M:%S').encode()
    sx, sy, ox, oy = (env.real(n, Fraction(1, 1000), 1000) for n in ('sx', 'sy', 'ox', 'oy'))
    b = b'OmniSurf3D' + struct.pack('<iii', 1, 7, len(raw)) + raw + struct.pack('<i', len(when)) + when + struct.pack('<ii', 3, 2) + env.pack('<4d', sx, sy, ox, oy) + struct.pack('<6f', *range(6)) + b'\0'
    get = lambda: load(env, b, '.os3d')
    r = get()
    for k, v in (('nMajorVersion', 1), ('nMinorVersion', 7), ('chArrayIdentification', name), ('nPointsAlongX', 3), ('nPointsAlongY', 2), ('dSpacingAlongXUM', sx), ('dSpacingAlongYUM', sy), ('dXOriginUM', ox),
                 ('dYOriginUM', oy), ('timestamp', d)):
        equal(env, r.metadata, k, v)
    flat(env, r, 2, 3)
    apart(env, r, get)


def opd(env, given=True):
    d = date(env)
    n = {k: num(env, k, 'v' + k) for k in 'hfdi'}
    wl, mult = env.real('wl', 100, 1000), env.int_('mult', 1, 10000)
    title = env.choice('title', ['Test', 'Größe', 'two words'])
    tb = title.encode() if env.flag('unicode') else title.encode('latin-1')
    arr = struct.pack('<HHH', 3, 2, 2) + struct.pack('<6h', *range(6))
    blocks = [('RAW_DATA', 3, arr), ('Stage_X', 7, env.pack('<f', n['f'])), ('Mag', 8, env.pack('<d', n['d'])), ('Frames', 6, env.pack('<h', n['h'])), ('Serial', 12, env.pack('<i', n['i'])),
              ('Title', 5, tb.ljust(20, b'\0')), ('Note', 5, bytes(8))]
    if given:
        blocks += [('Date', 5, d.strftime('%m/%d/%Y').encode().ljust(12, b'\0')), ('Time', 5, d.strftime('%H:%M:%S').encode().ljust(12, b'\0')), ('Wavelength', 7, env.pack('<f', wl)), ('Mult', 6, env.pack('<h', mult))]
    elif env.flag('time only'):
        blocks += [('Time', 5, b'10:11:12'.ljust(12, b'\0'))]
    ent = lambda n, t, s: n.encode().ljust(16, b'\0') + struct.pack('<hlH', t, s, 0)
    b = b'\x01\x00' + ent('Directory', 1, 24 * (len(blocks) + 1)) + b''.join(ent(n, t, len(c)) for n, t, c in blocks) + b''.join(c for _, _, c in blocks)
    get = lambda: load(env, b, '.opd')
    r = get()
    m = r.metadata
    equal(env, m, 'Stage_X', n['f'], E32)
    equal(env, m, 'Mag', n['d'])
    equal(env, m, 'Frames', n['h'])
    equal(env, m, 'Serial', n['i'])
    equal(env, m, 'Title', title)
    env.concrete('empty text left out', not m.get('Note'))
    if given:
        equal(env, m, 'timestamp', d)
        equal(env, m, 'Wavelength', wl / 1000, E32)
        equal(env, m, 'Mult', mult)
    else:
        env.concrete('no time stamp', 'timestamp' not in m)
    env.concrete('heights are no metadata', 'RAW_DATA' not in m)
    flat(env, r, 2, 3)
    apart(env, r, get)


# name: (offset, type); from the description of the header of MetroPro data files
DAT = {'swinfo_type': (10, '>h'), 'swinfo_vers_maj': (42, '>h'), 'swinfo_vers_min': (44, '>h'), 'swinfo_vers_bug': (46, '>h'), 'ac_org_x': (48, '>h'), 'ac_org_y': (50, '>h'), 'cn_org_x': (64, '>h'), 'cn_org_y': (66, '>h'),
       'time_stamp': (76, '>i'), 'source': (162, '>h'), 'num_aperture': (172, '>f'), 'magnification': (180, '>f'), 'acq_type': (188, '>h'), 'intens_avg_cnt': (190, '>h'), 'ramp_cal': (192, '>h'), 'sfac_limit': (194, '>h'),
       'ramp_gain': (196, '>h'), 'part_thickness': (198, '>f'), 'sw_llc': (202, '>h'), 'target_range': (204, '>f'), 'min_mod': (210, '>i'), 'min_mod_count': (214, '>i'), 'min_area': (220, '>i'), 'discon_action': (224, '>h'),
       'discon_filter': (226, '>f'), 'connect_order': (230, '>h'), 'sign': (232, '>h'), 'camera_width': (234, '>h'), 'camera_height': (236, '>h'), 'sys_type': (238, '>h'), 'sys_board': (240, '>h'), 'sys_serial': (242, '>h'),
       'inst_id': (244, '>h'), 'codev_type': (298, '>h'), 'phase_avg_cnt': (300, '>h'), 'sub_sys_err': (302, '>h'), 'refractive_index': (360, '>f'), 'rem_tilt_bias': (364, '>h'), 'rem_fringes': (366, '>h'), 'max_area': (368, '>i'),
       'setup_type': (372, '>h'), 'wrapped': (374, '>h'), 'pre_connect_filter': (376, '>f')}


# further fields of the large header
DAT3 = {'films_mode': (838, '>h'), 'films_reflectivity_ratio': (840, '>h'), 'films_obliquity_correction': (842, '>f'), 'films_refraction_index': (846, '>f'), 'films_min_mod': (850, '>f'), 'films_min_thickness': (854, '>f'),
        'films_max_thickness': (858, '>f'), 'films_min_refl_ratio': (862, '>f'), 'films_max_refl_ratio': (866, '>f'), 'films_dfmt': (898, '>h'), 'films_merit_mode': (900, '>h'), 'films_h2g': (902, '>h'), 'films_fringe_remove_perc': (934, '>f')}


def dat(env, fmt, part, encoding='auto'):
    f = Blob(env, 834 if fmt < 3 else 4096)
    f.raw(0, {1: b"\x88\x1b\x03\x6f", 2: b"\x88\x1b\x03\x70", 3: b"\x88\x1b\x03\x71"}[fmt])
    f.put(4, '>HI', fmt, 834 if fmt < 3 else 4096)
    f.put(68, '>HHI', 3, 2, 24)
    f.put(164, '>ff', 1.0, 1.0)
    f.put(176, '>f', 1.0)
    f.put(184, '>f', 1.0)
    f.put(218, '>h', 1)
    table = DAT if fmt < 3 else {**DAT, **DAT3}
    names = sorted(table)[part::2]
    v = {}
    for k in names:
        o, t = table[k]
        v[k] = num(env, t[1], k)
        f.put(o, t, v[k])
    comment = env.choice('comment', LATIN)
    code = env.choice('code page', ['utf-8', 'latin-1']) if encoding == 'auto' else encoding
    f.raw(80, comment.encode(code))
    f.raw(246, b'10x')
    f.raw(258, 'Teil µ'.encode(code))
    f.raw(320, b'No 12')
    fid = [num(env, 'f', f'fid{k}') for k in range(14)]
    f.put(430, '>14f', *fid)
    f.raw(len(f.b), struct.pack('>6i', *range(6)))
    r = load(env, f.done(), '.dat', encoding=encoding)
    for k in names:
        equal(env, r.metadata, k, v[k], E32 if table[k][1][1] == 'f' else None)
    for k, t in (('comment', comment), ('obj_name', '10x'), ('part_name', 'Teil µ'), ('part_ser_num', 'No 12')):
        equal(env, r.metadata, k, t)
    equal(env, r.metadata, 'fiducials_a', fid, E32)
    flat(env, r, 2, 3)


def x3p(env, nested=True):
    import hashlib
    d, c = date(env), datetime(*env.choice('calibrated', DATES[:2]))
    iso = '%Y-%m-%dT%H:%M:%S'
    maker = env.choice('maker', ['X', 'Größe µ', 'a &amp; b', 'two  blanks\nand lines'])
    rec = f'<Date>{d.strftime(iso)}</Date>' + (f'<Creator>me</Creator><Instrument><Manufacturer>{maker}</Manufacturer><Model>m 1</Model><Version> 2 </Version></Instrument><CalibrationDate>{c.strftime(iso)}</CalibrationDate>'
                                               '<ProbingSystem><Type>NonContacting</Type><Identification>50x</Identification></ProbingSystem><Comment/>' if nested else '')
    ax = lambda t: f'<AxisType>{t}</AxisType><DataType>D</DataType><Increment>1e-6</Increment><Offset>0</Offset>'
    xml = f'''<?xml version="1.0" encoding="UTF-8"?>
<p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1><Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes><CX>{ax('I')}</CX><CY>{ax('I')}</CY><CZ>{ax('A')}</CZ></Axes></Record1><Record2>{rec}</Record2>
<Record3><MatrixDimension><SizeX>3</SizeX><SizeY>2</SizeY><SizeZ>1</SizeZ></MatrixDimension><DataLink><PointDataLink>bindata/data.bin</PointDataLink></DataLink></Record3><Record4><ChecksumFile>md5checksum.hex</ChecksumFile></Record4></p:ISO5436_2>'''.encode()
    b = zipped({'main.xml': xml, 'bindata/data.bin': struct.pack('<6d', *range(6)), 'md5checksum.hex': hashlib.md5(xml).hexdigest() + ' *main.xml\n'})
    r = load(env, b, '.x3p')
    equal(env, r.metadata, 'Date', d)
    if nested:
        equal(env, r.metadata, 'CalibrationDate', c)
        for k, v in (('Creator', 'me'), ('InstrumentManufacturer', maker.replace('&amp;', '&')), ('InstrumentModel', 'm 1'), ('InstrumentVersion', '2'), ('ProbingSystemType', 'NonContacting'), ('ProbingSystemIdentification', '50x')):
            equal(env, r.metadata, k, v)
    else:
        env.concrete('nothing else', set(r.metadata) == {'Date'}, str(r.metadata))
    flat(env, r, 2, 3)


def sdf(env, ascii_, eol='\n'):
    d, c = date(env), datetime(*env.choice('changed', DATES[:2]))
    F = '%d%m%Y%H%M'
    s = {k: env.real(k, Fraction(1, 1000), 1000) for k in ('Xscale', 'Yscale', 'Zscale', 'Zresolution')}
    maker, z = env.choice('maker', ['TestManuf', 'a b', 'x' * 10]), env.real('z', -10, 10)
    if ascii_:
        L = ['aISO-1.0', f'ManufacID   = {maker}', f'CreateDate  = {d.strftime(F)}', f'ModDate= {c.strftime(F)}', 'NumPoints =3', 'NumProfiles = 2'] + [f'{k} = {env.text(v)}' for k, v in s.items()]
        L += ['Compression = 0', 'DataType    = 7', 'CheckType   = 0', '*', f'{env.text(z)} 2 3', '4 BAD 6', '*', '< OperatorName > Tom Jones < / OperatorName >', '<Sample>A 1</Sample>', '*', '']
        b = eol.join(L).encode('ascii')
    else:
        b = b'bISO-1.0' + maker.encode().ljust(10) + d.strftime(F).encode() + c.strftime(F).encode() + struct.pack('<HH', 3, 2) + env.pack('<4d', *s.values()) + struct.pack('<BBB', 0, 7, 0) + struct.pack('<6d', *range(6))
    get = lambda: load(env, b, '.sdf')
    r = get()
    m = r.metadata
    equal(env, m, 'ManufacID', maker)
    for k, v in (('CreateDate', d), ('ModDate', c)):
        equal(env, m, k, v.replace(second=0) if ascii_ else v.strftime(F))
    for k, v in s.items():
        equal(env, m, k, v)
    for k, v in (('NumPoints', 3), ('NumProfiles', 2), ('DataType', 7), ('CheckType', 0), ('Compression', 0)):
        equal(env, m, k, v)
    if ascii_:
        equal(env, m, 'OperatorName', 'Tom Jones')
        equal(env, m, 'Sample', 'A 1')
    flat(env, r, 2, 3)
    apart(env, r, get)


def fits(env, blocks=1):
    v, i = env.real('v', -1000, 1000), env.int_('i', -10 ** 6, 10 ** 6)
    text = env.choice('text', ['NanoFocus', '2020/05/17', 'a = b', "O''Neill", 'two words', '12', 'a = b / c'])
    first = [card('SIMPLE', 'T'), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', 'T'), 'COMMENT a = b / c'.ljust(80), 'HISTORY made by hand'.ljust(80), ' ' * 80, '        blank keyword'.ljust(80),
             card('DELTAX', 1.0), card('DELTAY', 1.0), card('UNITX', "'m'"), card('UNITY', "'m       '"), card('UNITZ', "'m'"), 'HIERARCH UnitMultiplicatorDeltas = 1.0'.ljust(80), 'HIERARCH UnitMultiplicatorHeights = 1.0'.ljust(80),
             card('REAL', env.text(v) + ' / number = real'), card('COUNT', env.text(i)), card('TEXT', f"'{text}'" + (' / who / what' if env.flag('remark') else '')), f"HIERARCH Objective Name = '{text}'".ljust(80)]
    if blocks > 1:
        first += [card(f'KEY{k}', k) for k in range(36 * blocks)]
    c = [card('XTENSION', "'IMAGE   '"), card('BITPIX', -64), card('NAXIS', 2), card('NAXIS1', 3), card('NAXIS2', 2), card('PCOUNT', 0), card('GCOUNT', 1), 'HISTORY levelled'.ljust(80), card('EXTNAME', "'HEIGHTS '")]
    r = load(env, fits_block(first) + fits_block(c) + pad(struct.pack('>6d', *range(6))), '.fits')
    m = r.metadata
    equal(env, m, 'REAL', v)
    equal(env, m, 'COUNT', i)
    equal(env, m, 'TEXT', text.replace("''", "'"))
    equal(env, m, 'Objective Name', text.replace("''", "'"))
    equal(env, m, 'UNITY', 'm')
    if blocks > 1:
        for k in (0, 20, 36, 36 * blocks - 1):
            equal(env, m, f'KEY{k}', k)
    flat(env, r, 2, 3)


def gwy(env):
    g = Gwy(env)
    key = env.choice('channel', [0, 3, 12])
    text = env.choice('text', ['Tom', '', 'Größe µm', 'two\nlines'])
    fld = g.field([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], 3.0, 2.0, 'um', 'nm')
    img = g.field([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], 3.0, 2.0, 'um', None)
    d, i = env.real('d', -1000, 1000), num(env, 'i', 'i')
    cont = lambda *c: g.obj('GwyContainer', *c)
    meta = cont(g.comp('Operator', 's', text), b'gain\0d' + env.pack('<d', d), b'count\0i' + env.pack('<i', i), g.comp('flag', 'b', 1), g.comp('Date', 's', '2020-05-17'))
    comps = [g.comp('/5/data', 'o', img), g.comp('/5/data/title', 's', 'Image'), g.comp('/5/meta', 'o', cont(g.comp('Operator', 's', 'other'))),
             g.comp(f'/{key}/data', 'o', fld), g.comp(f'/{key}/data/title', 's', 'Height')]
    with_ = env.flag('meta')
    if with_:
        comps.append(g.comp(f'/{key}/meta', 'o', meta))
    b = b'GWYP' + cont(*comps)
    r = load(env, b, '.gwy')
    if with_:
        for k, v in (('Operator', text), ('gain', d), ('count', i), ('flag', True), ('Date', '2020-05-17')):
            equal(env, r.metadata, k, v)
    else:
        env.concrete('metadata of the heights only', r.metadata.get('Operator') is None, str(r.metadata))
    flat(env, r, 2, 3)


def tmd(env, encoding='auto'):
    w = {k: env.real(k, Fraction(1, 100), 1000) for k in ('length_x', 'length_y', 'offset_x', 'offset_y')}
    comment = env.choice('comment', LATIN)
    code = env.choice('code page', ['utf-8', 'latin-1']) if encoding == 'auto' else encoding
    b = b'Binary TrueMap Data File v2.0\r\n\0' + comment.encode(code).ljust(24, b'\0') + struct.pack('<II', 3, 2) + env.pack('<4f', *w.values()) + struct.pack('<6f', *range(6))
    get = lambda: load(env, b, '.tmd', encoding=encoding)
    r = get()
    equal(env, r.metadata, 'comment', comment)
    for k, v in w.items():
        equal(env, r.metadata, k, v, E32)
    equal(env, r.metadata, 'width', 3)
    equal(env, r.metadata, 'height', 2)
    flat(env, r, 2, 3)
    apart(env, r, get)


SUR = {'format': (12, 'h'), 'p_size': (80, 'h'), 'range_type': (84, 'h'), 'absolute_z_axis': (88, 'h'), 'gauge_resolution': (90, 'f'), 'unit_ratio_x': (276, 'f'), 'unit_ratio_y': (280, 'f'), 'unit_ratio_z': (284, 'f'),
       'replica': (288, 'h'), 'inverted': (290, 'h'), 'leveled': (292, 'h'), 'seconds': (306, 'h'), 'minutes': (308, 'h'), 'hours': (310, 'h'), 'day': (312, 'h'), 'month': (314, 'h'), 'year': (316, 'h'), 'week_day': (318, 'h'),
       'measurement_duration': (320, 'f'), 'offset_x': (466, 'f'), 'offset_y': (470, 'f'), 'spacing_t': (478, 'f'), 'offset_t': (482, 'f')}


def sur(env, encoding='auto', compressed=0):
    code = env.choice('code page', ['utf-8', 'latin-1']) if encoding == 'auto' else encoding
    comment = env.choice('comment', [b'', b'abc', b'\xff\x00 x'])
    b = sur_object(env, [[1, 2, 3], [4, 5, 6]], 16, 1.0, 1.0, 1.0, 'µm', 'mm', 'nm', False, -5, 7, 2, comment=comment, private=b'private', codec=code, compressed=compressed)
    f = Blob(env, 0)
    f.raw(0, b)
    v = {}
    for k, (o, t) in SUR.items():
        v[k] = num(env, t, k)
        f.put(o, '<' + t, v[k])
    acq = env.concint('acquisition', 0, 10)
    f.put(82, '<h', acq)
    who = env.choice('who', ['Größe', '', 'two words'])
    f.raw(20, who.encode(code).ljust(30))
    f.raw(50, b'OP'.ljust(30))
    f.raw(338, 'zone µ'.encode(code))
    r = load(env, f.done(), '.sur', encoding=encoding)
    m = r.metadata
    for k, w in v.items():
        equal(env, m, k, w, E32 if SUR[k][1] == 'f' else None)
    for k, w in (('name_object', who), ('name_operator', 'OP'), ('client_zone', 'zone µ'), ('name_x', 'X'), ('unit_step_x', 'µm'), ('unit_step_y', 'mm'), ('unit_z', 'nm'), ('comment', comment), ('private', b'private'),
                 ('code', 'DSCOMPRESSED' if compressed else 'DIGITAL SURF'), ('n_lines', 2), ('n_points_per_line', 3), ('n_total_points', 6), ('bits_per_point', 16), ('min_point', -5), ('max_point', 7), ('spacing_x', 1), ('n_objects', 1)):
        equal(env, m, k, w)
    env.concrete('kind of object', m['studiable_type'] == 2 and m['studiable_type'].name == 'SURFACE', str(m['studiable_type']))
    env.concrete('kind of measurement', m['acquisition_type'] == acq, str(m['acquisition_type']))
    flat(env, r, 2, 3)


# ------------------------------------------------------------------------------------------------ writers
def written(env, s, suffix, **kw):
    b = io.BytesIO()
    s.save(b, format=suffix, **kw)
    return b.getvalue()


def surface(env):
    z = [[Fraction(x) / 4 if env.symbolic else x / 4 for x in r] for r in ([1, -3, 7], [10, 4, -20])]
    return env.surface(z, *env.steps()), z


def write_comment(env, suffix, texts, encoding):
    s, z = surface(env)
    text = env.choice('comment', texts)
    enc = {'encoding': encoding} if encoding else {}
    n = len(text.encode(encoding or 'utf-8'))
    try:
        b = written(env, s, suffix, comment=text, **enc)
    except ValueError:
        env.concrete('only a comment that does not fit is refused', suffix == '.tmd' and n > 21, repr(text))
        return
    env.concrete('a comment that does not fit is refused', suffix != '.tmd' or n <= 21, repr(text))
    r = load(env, b, suffix, **enc)
    plain = load(env, written(env, s, suffix, **enc), suffix, **enc).metadata['comment']
    plain = plain.decode(encoding or 'utf-8') if isinstance(plain, bytes) else plain
    env.concrete('no comment of its own unless one is given', plain.rstrip() == {'.tmd': 'Exported by surfalize', '.sur': ''}[suffix], repr(plain))
    if suffix == '.tmd':
        got = r.metadata['comment'].rstrip()
        env.concrete('comment', got == text.rstrip(), repr(got))
    else:
        got = r.metadata['comment']
        env.concrete('comment', (got.decode(encoding or 'utf-8') if isinstance(got, bytes) else got) == text, repr(got))
    flat(env, r, 2, 3)
    got = env.rows(r.data)
    for i in range(2):
        for j in range(3):
            env.close(f'height {i},{j}', got[i][j], z[i][j], Fraction(1, 10 ** 5) if env.symbolic else 1e-5, 20)


def write_date(env, binary):
    s, z = surface(env)
    d = date(env)
    with_ = env.flag('time stamp')
    if with_:
        s.metadata['timestamp'] = d
    before = datetime.now()
    b = written(env, s, '.sdf', binary=binary)
    after = datetime.now()
    m = load(env, b, '.sdf').metadata
    F = '%d%m%Y%H%M'
    t = {k: datetime.strptime(m[k], F) if isinstance(m[k], str) else m[k] for k in ('CreateDate', 'ModDate')}
    now = lambda x: before.replace(second=0, microsecond=0) <= x <= after
    env.concrete('date of the measurement', t['CreateDate'] == d.replace(second=0) if with_ else now(t['CreateDate']), str(t))
    env.concrete('date of the change', now(t['ModDate']), str(t))


def write_time(env):
    s, z = surface(env)
    before = datetime.now()
    m = load(env, written(env, s, '.sur'), '.sur').metadata
    after = datetime.now()
    t = datetime(*(int(m[k]) for k in ('year', 'month', 'day', 'hours', 'minutes', 'seconds')))
    env.concrete('date of the file', before.replace(microsecond=0) <= t <= after, str(t))
    env.concrete('size of the file', (m['n_lines'], m['n_points_per_line'], m['n_total_points']) == (2, 3, 6))


def constructed(env):
    """metadata of surfaces that come from arrays"""
    S = env.pkg('surfalize').Surface
    z = env.grid('h', 2, 3)
    sx, sy = env.steps()
    a, b = S(env.array(z), sx, sy), S(env.array(z), sx, sy)
    env.concrete('empty', a.metadata == {} and b.metadata == {})
    a.metadata['x'] = 1
    env.concrete('not shared', b.metadata == {})
    m = {'operator': 'me'}
    c = S(env.array(z), sx, sy, metadata=m)
    env.concrete('as given', c.metadata == {'operator': 'me'})
    env.eqs('heights', c.data, z)
    op = env.choice('operation', ['center', 'level', 'zoom'])
    getattr(c, op)(*([2] if op == 'zoom' else []), inplace=True)
    env.concrete('kept by operations in place', c.metadata == {'operator': 'me'}, str(c.metadata))


def harnesses(tier):
    T = tier == 'thorough'
    t = 200 if T else 60
    hs = [H(f'vk {s}', vk, suffix=s, time=t, max_paths=200, bounds='2x3; any zoom and magnification; listed dates and texts') for s in ('.vk4', '.vk6', '.vk7')]
    hs += [H('nms', nms, time=t, bounds='2x2; listed dates'), H('plu', plu, time=t, bounds='2x3; listed dates'), H('plux', plux, time=t, max_paths=100, bounds='2x3; every number of entries'),
           H('os3d', os3d, time=t, bounds='2x3; any spacing and origin'), H('opd', opd, time=t, max_paths=100, bounds='2x3; any numbers'), H('opd bare', opd, given=False, time=t, max_paths=100, bounds='2x3; any numbers')]
    for fmt in (1, 2, 3):
        for k in (0, 1):
            hs.append(H(f'dat {fmt} {k}', dat, fmt=fmt, part=k, time=t, max_paths=100, bounds='2x3; any numbers in 21 fields'))
    hs += [H('dat latin-1', dat, fmt=1, part=0, encoding='latin-1', time=t, max_paths=100, bounds='2x3'), H('x3p', x3p, time=t, max_paths=100, bounds='2x3; listed dates and texts'), H('x3p short', x3p, nested=False, time=t, bounds='2x3'),
           H('sdf binary', sdf, ascii_=False, time=t, max_paths=100, bounds='2x3; any scales'), H('sdf ascii', sdf, ascii_=True, time=t, max_paths=100, bounds='2x3; any scales'), H('sdf ascii crlf', sdf, ascii_=True, eol='\r\n', time=t, max_paths=100, bounds='2x3'),
           H('fits', fits, time=t, max_paths=100, bounds='2x3; any numbers; listed texts'), H('fits blocks', fits, blocks=3, time=t, max_paths=100, bounds='2x3; header of four blocks'), H('gwy', gwy, time=t, max_paths=100, bounds='2x3; any numbers'),
           H('tmd', tmd, time=t, max_paths=100, bounds='2x3; any lengths'), H('tmd latin-1', tmd, encoding='latin-1', time=t, bounds='2x3'), H('sur', sur, time=t, max_paths=300, bounds='2x3; any numbers in 23 fields'), H('sur compressed', sur, compressed=1, encoding='latin-1', time=t, max_paths=300, bounds='2x3')]
    texts = ['Exported', '', ' in  dent\nline', 'x' * 21, 'x' * 22, 'µ' * 10, 'aµµµµµµµµµµ', 'a' + 'µ' * 11, 'µ' * 20]
    for s in ('.tmd', '.sur'):
        for e in (None, 'latin-1'):
            hs.append(H(f'comment {s} {e or "default"}', write_comment, suffix=s, texts=texts, encoding=e, time=t, max_paths=200, bounds='2x3; any heights; listed comments'))
    hs += [H('date sdf binary', write_date, binary=True, time=t, bounds='2x3'), H('date sdf ascii', write_date, binary=False, time=t, bounds='2x3'), H('date sur', write_time, time=t, bounds='2x3'), H('constructed', constructed, time=t, bounds='2x3')]
    return hs
