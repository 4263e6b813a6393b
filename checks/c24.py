"""An incomplete file is refused and never loaded as another surface."""
import io
import warnings
from .common import H, flatten
from .c21 import FORMATS, E32, same, steps_, tag
from .c23 import FOREIGN, data, scale_of
from . import c22
NOTE = 'the file ends after any of the listed numbers of bytes (a write, transfer or disk that stopped); heights and step sizes are arbitrary'


def points(n, dense):
    """lengths of the incomplete file: everything near both ends, a grid in between"""
    step = max(1, n // dense)
    return sorted(set(list(range(0, min(n, 12))) + list(range(0, n, step)) + list(range(max(0, n - 12), n))))


def cutter(env, dense, part):
    def cut(blob):
        p = points(len(blob), dense)
        p = p[part[0] * len(p) // part[1]:(part[0] + 1) * len(p) // part[1]]
        k = env.concint('kept', 0, len(p) - 1)
        return blob[:p[k]]
    return cut


def foreign(env, build, sfx, dense, part, given=True, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            build(env, 2, 3, kind=dict(format=sfx if given else None, cut=cutter(env, dense, part)), **kw)
        except c22.Refused:
            env.concrete('refused', True)


def own(env, sfx, dense, part, **kw):
    S = env.pkg('surfalize').Surface
    z = data(env, 'scale')
    st = steps_(env)
    b = io.BytesIO()
    env.surface(z, *st).save(b, format=sfx, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = S.load(c22.Finite(cutter(env, dense, part)(b.getvalue())), format=sfx)
        except c22.Endless:
            env.concrete('loading ends', False)
            return
        except Exception:
            env.concrete('refused', True)
            return
    same(env, r, z, st, E32, scale_of(env, z))


def harnesses(tier):
    hs = []
    dense = 40 if tier == 'quick' else 600
    parts = 1 if tier == 'quick' else 8
    B = f'2x3; file lengths: {dense} over the file and all within 12 bytes of the ends'
    for p in range(parts):
        for sfx, kw in FORMATS:
            hs.append(H(f'{tag(sfx, kw)} {p}', own, sfx=sfx, dense=dense, part=(p, parts), time=100, max_paths=2000, bounds=B, **kw))
        for k, (sfx, fn, kw) in enumerate(FOREIGN + [('.nms', c22.nms, {}), ('.plu', c22.plu, {}), ('.plux', c22.plux, {})]):
            hs.append(H(f'foreign {k} {sfx} {p}', foreign, build=fn, sfx=sfx, dense=dense, part=(p, parts), time=100, max_paths=2000, bounds=B, **kw))
    return hs
