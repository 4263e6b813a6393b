def sio_fronts():
    out = {}
    for n in ('sio', 'pool'):
        try:
            m = __import__(f'{__name__}.{n}', fromlist=['fronts'])
        except ImportError:
            continue
        out.update(m.fronts())
    return out
