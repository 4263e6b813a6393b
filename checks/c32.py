"""Collections of measurement files: Keyence .cag containers and the example files hand over every measurement unchanged."""
import io
import pathlib
import struct
import types
from fractions import Fraction
from .common import H, flatten
from .c22 import ints, heights, steps, vk4_bytes, zipped, S12
from .c29 import swap
NOTE = 'containers are built entry by entry, the measurements inside have arbitrary heights; the web server is a stand-in that returns the bytes it was asked for'


def member(env, k, suffix, ny=2, nx=3):
    """a measurement with arbitrary heights, as bytes, and what it has to be read as"""
    q = ints(env, ny, nx, 0, 2 ** 16 - 1, f'q{k}_')
    sx, sy, dz = 125000 * (k + 1), 250000 + 1000 * k, 100 + k
    b = vk4_bytes(env, q, 16, sx, sy, dz)[0]
    if suffix != '.vk4':
        b = suffix[1:].upper().encode() + b'\0' * 7 + zipped({'Vk4File': b, 'other': b'abc'})
    M = 10 ** 6
    f = (lambda v: Fraction(1, M) * v) if env.symbolic else (lambda v: v / M)
    return b, ([[f(x * dz) for x in r] for r in q], f(sx), f(sy))


def matches(env, r, want):
    z, sx, sy = want
    steps(env, r, sx, sy, S12)
    heights(env, r, z, S12)


def cag(env, names, target=None, others=(), text=False, pad=0):
    """names: original path of each measurement in the container"""
    C = env.pkg('surfalize.file.cag')
    S = env.pkg('surfalize').Surface
    root = pathlib.Path(env.path('x')).parent
    files, index, wants = {}, '', []
    files['readme.txt'] = b'container'
    for k, n in enumerate(names):
        suffix = '.' + n.rpartition('.')[2]
        b, want = member(env, k, suffix)
        if suffix == '.vk4':
            b += bytes(pad) + b'end' * (pad > 0)
        files[f'data/{700 + 3 * k}/measurement'] = b
        wants.append((n.replace('\\', '/').rpartition('/')[2], b, want, suffix))
    for k in list(range(len(names)))[::-1]:
        index += f'<Item><Path>{700 + 3 * k}</Path>\n<OriginalFileName>{names[k]}</OriginalFileName></Item>\n'
    for i, (n, b) in enumerate(others):
        files[n] = b
    files['data/index.xml'] = f'<?xml version="1.0"?><Table>\n{index}</Table>'.encode()
    home = root / 'in'
    home.mkdir()
    path = home / 'all.cag'
    path.write_bytes(zipped(files))
    kw = {}
    out = home
    if target is not None:
        out = root / target
        if target == 'there':
            out.mkdir()
        kw['target'] = str(out) if text else out
    C.extract_cag(str(path) if text else path, **kw)
    got = {str(p.relative_to(root)) for p in root.rglob('*') if p.is_file()}
    base = out.relative_to(root)
    env.concrete('one file for every measurement, under its own name', got == {str(base / w[0]) for w in wants} | {'in/all.cag'}, str(sorted(got)))
    for n, b, want, suffix in wants:
        p = out / n
        if p.is_file():
            env.concrete('every byte of the measurement', p.read_bytes() == b, f'{p.stat().st_size} bytes instead of {len(b)}')
            matches(env, S.load(p), want)
    env.concrete('container untouched', path.read_bytes() == zipped(files) or path.stat().st_size > 0)


def server(env, files, fail=False):
    """stand-in for the web: a listing and the files it names"""
    E = env.pkg('surfalize.examples')
    asked = []

    def get(url, *a, **k):
        asked.append(url)
        if fail:
            raise E.ConnectionError('no network')
        for n, b in files.items():
            if url == 'https://files/' + n:
                return types.SimpleNamespace(content=b, status_code=200, ok=True, raise_for_status=lambda: None)
        if url == E.EXAMPLE_FILES_URL:
            l = [{'name': n, 'download_url': 'https://files/' + n, 'url': 'https://api/' + n, 'type': 'file'} for n in files]
            return types.SimpleNamespace(json=lambda: l, status_code=200, ok=True, raise_for_status=lambda: None)
        raise KeyError(url)
    swap(env, E, 'requests', types.SimpleNamespace(get=get, exceptions=types.SimpleNamespace(ConnectionError=E.ConnectionError), ConnectionError=E.ConnectionError))
    return E, asked


def examples(env):
    """listing, selection by format, loading"""
    S = env.pkg('surfalize').Surface
    z = [[env.real(f'z{i}_{j}', -1000, 1000) for j in range(3)] for i in range(2)]
    sx, sy = Fraction(3, 4) if env.symbolic else .75, Fraction(1, 2) if env.symbolic else .5
    # the writer's bytes: C21 covers that they describe this surface
    out = {}
    for suf in ('.al3d', '.tmd'):
        b = io.BytesIO()
        env.surface(z, sx, sy).save(b, format=suf)
        out[suf] = b.getvalue()
    vk, want = member(env, 0, '.vk4')
    files = {'a.al3d': out['.al3d'], 'B 1.vk4': vk, 'c.d.tmd': out['.tmd'], 'e.tmd': out['.tmd'], 'f.al3d': out['.al3d'], 'vk4.al3d': out['.al3d'], 'plain': out['.al3d'], 'x.tmd.al3d': out['.al3d'], 'tmd': out['.tmd'], 'points.xyz': b''.join(b'%d %d %d\n' % (3 * j, 2 * i, i * i - 5 * j) for i in range(4) for j in range(3))}
    E, asked = server(env, files)
    l = E.list_examples()
    env.concrete('every offered file is listed', sorted(f.name for f in l) == sorted(files), str([f.name for f in l]))
    for suf in ('.sdf', '.vk4', '.tmd', '.opd', '.xyz'):
        got = sorted(f.name for f in E.list_examples(suf))
        env.concrete(f'only files of the format {suf}', got == sorted(n for n in files if n.endswith(suf)), str(got))
    for f in l:
        env.concrete('name in the description', f.name in repr(f))
        if f.name == 'B 1.vk4':
            matches(env, f.load(), want)
            continue
        suf = '.al3d' if f.name == 'plain' else '.tmd' if f.name == 'tmd' else '.' + f.name.rpartition('.')[2]
        r, w = f.load(), S.load(io.BytesIO(files[f.name]), format=suf)
        env.concrete('its own file is downloaded', asked[-1].endswith('/' + f.name), asked[-1])
        env.eqs('heights of the example', r.data, env.flat(w.data), scale=1000)
        env.eq('step x of the example', r.step_x, w.step_x)
        env.eq('step y of the example', r.step_y, w.step_y)


def offline(env):
    E, _ = server(env, {'a.sdf': b''}, fail=True)
    env.raises('no network when listing', lambda: E.list_examples(), E.ConnectionError)
    env.raises('no network when loading', lambda: E.ExampleFile('a.sdf', 'https://files/a.sdf').load(), E.ConnectionError)


def harnesses(tier):
    fake = [('data/900/thumbnail', b'BM' + bytes(40)), ('data/901/vk4', b'vk4_' + bytes(20)), ('extra/1/x', b'XVK4' + bytes(9)), ('data/902/short', b'V'), ('data/903/empty', b'')]
    win = 'C:\\Users\\lab\\run 1\\'
    hs = [H('container', cag, names=['one.vk4'], time=60, bounds='one measurement of 2x3 arbitrary heights'),
          H('container several', cag, names=['/data/b.vk6', '/data/a.vk4', '/data/deep/er/c.vk7', 'd.vk4'], target='there', time=90, bounds='four measurements'),
          H('container folder created', cag, names=['x/sample 1.vk4', 'x/sample.2.vk4'], target='new', text=True, time=60, bounds='two measurements'),
          H('container other entries', cag, names=['q.vk4', 'r.vk6'], others=fake, target='new', pad=2200000, time=60, bounds='two measurements, five other entries'),
          H('container windows names', cag, names=[win + 'p.vk4', win + 'q.vk6'], target='there', time=60, bounds='two measurements'),
          H('examples', examples, time=90, bounds='2x3 arbitrary heights in three formats'), H('offline', offline, time=20, bounds='-')]
    if tier == 'thorough':
        hs.append(H('T container many', cag, names=[f'd{k % 3}/m{k}.{("vk4", "vk6", "vk7")[k % 3]}' for k in range(9)], others=fake, target='new', time=300, bounds='nine measurements'))
    return hs
