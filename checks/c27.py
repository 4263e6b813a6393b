"""Batch processing: every file's row holds what the registered operations and parameters give on that file's surface, in the
order of registration, however the work is scheduled."""
import io
import inspect
import os
os.environ.setdefault("TQDM_DISABLE", "1")
import threading
from fractions import Fraction
from .common import H, small_bins
from .c26 import lift, pwave
NOTE = 'two or three files of 2x3 points with arbitrary heights; concurrent execution is explored for every order of the segments between registered steps'
IDX = [(0, 1), (1, 2), (0, 0), (1, 0), (0, 2), (1, 1)]
SFX = '.sflz'


def files(env, n, ny=2, nx=3, kind='path', grids=None, order=None, affine=False):
    """n surfaces in files, told apart by their step size; returns (inputs for Batch, names, loader of the i-th surface)"""
    S = env.pkg('surfalize').Surface
    B = env.pkg('surfalize.batch')
    ins, names = [], []
    d = os.path.dirname(env.path('x'))
    if affine:
        small_bins(env, 9)
        grids = []
        for i in range(n):
            a, c = env.real(f'a{i}', Fraction(1, 2), 4), env.real(f'c{i}', -50, 50)
            grids.append([[c + a * v for v in r] for r in [[2, -5, 9 + i], [4, 6, i - 1], [8, 0, 3]]])
    for i in range(n):
        z = grids[i] if grids else env.grid(f'z{i}', ny, nx, lo=-100, hi=100)
        if order:
            # the heights are in a fixed order
            for a, b in zip(order[1:], order):
                env.assume(z[a[0]][a[1]] > z[b[0]][b[1]] + Fraction(1, 100))
        s = env.surface(z, i + 1, i + 1)
        name = f'P{i}_n{10 - i}'
        if kind == 'buffer':
            b = io.BytesIO()
            s.save(b, format=SFX, dtype='<f8')
            b.seek(0)
            ins.append(B.FileInput(name=name, data=b, format=SFX if i % 2 else None))
            names.append(name)
        else:
            p = os.path.join(d, name + SFX)
            s.save(p, dtype='<f8')
            ins.append(p)
            names.append(name + SFX)

    def load(i):
        x = ins[i]
        if kind == 'buffer':
            return S.load(io.BytesIO(x.data.getvalue()), format=SFX)
        return S.load(x)
    return ins, names, load


def which(env, s):
    x = s.step_x
    return round(float(x.cval() if hasattr(x, 'cval') else x)) - 1


def rows(env, res, names):
    """rows of the result by file name; every file exactly once"""
    df = res.get_dataframe()
    got = [str(v) for v in df['file']]
    env.concrete('one row per file', sorted(got) == sorted(names), f'{got} for {names}')
    return {got[i]: {c: df[c].iloc[i] for c in df.columns if c != 'file'} for i in range(len(got))}


def compare(env, label, got, want):
    if not env.concrete(f'{label}: columns', set(got) == set(want), f'{sorted(map(str, got))} for {sorted(map(str, want))}'):
        return
    for k in want:
        same(env, f'{label} {k}', got[k], want[k])


def same(env, label, a, b):
    import numbers
    if isinstance(b, str):
        env.concrete(label, a == b, f'{a!r} for {b!r}')
    else:
        env.eq(label, a, b)


# registered steps: (method, positional, keywords); the oracle calls the same method of the surface itself
CHAINS = {
    'ops first': [('op', 'center'), ('op', 'invert'), ('par', 'Sa'), ('par', 'Sz'), ('par', 'Sq')],
    'interlaced': [('par', 'Sz'), ('op', 'zoom', 2), ('par', 'Sv', {'custom_name': 'after'}), ('op', 'invert'), ('par', 'Sp'), ('par', 'Sz', {'custom_name': 'Sz2'})],
    'parameters first': [('par', 'Sp'), ('par', 'Sdq'), ('op', 'invert')],
    'trend': [('par', 'Sq'), ('op', 'level'), ('par', 'Sq', {'custom_name': 'levelled'}), ('op', 'detrend_polynomial', {'degree': 1}), ('par', 'Sdq')],
    'order matters': [('op', 'crop', (0, 1, 0, 1), {'in_units': False}), ('par', 'Sz'), ('op', 'rotate', 90), ('par', 'Sdq'), ('op', 'zero'), ('par', 'Sp')],
    'inplace': [('op', 'center', {'inplace': False}), ('par', 'Sp'), ('op', 'zoom', 2, {'inplace': False}), ('op', 'invert', {'inplace': True}), ('par', 'Sv')],
    'arguments': [('par', 'Sxp', 10, 60), ('par', 'Sxp', {'p': 20, 'q': 70, 'custom_name': 'other'}), ('par', 'Smr', 1), ('par', 'Smc', {'mr': 30})],
}


def split(step):
    kind, name, *a = step
    kw = dict(a.pop()) if a and isinstance(a[-1], dict) else {}
    return kind, name, tuple(a), kw


def register(batch, chain):
    b = batch
    for s in chain:
        kind, name, a, kw = split(s)
        b = getattr(b, name)(*a, **kw)
    return b


def expected(env, s, chain, preserve=True):
    out = {}
    steps = [split(x) for x in chain]
    if not preserve:
        steps = [x for x in steps if x[0] == 'op'] + [x for x in steps if x[0] == 'par']
    for kind, name, a, kw in steps:
        if kind == 'op':
            t = getattr(s, name)(*a, **kw)
            s = t
        else:
            col = kw.pop('custom_name', name)
            out[col] = getattr(s, name)(*a, **kw)
    return out


def chain(env, which, n=2, kind='path', preserve=True, mp=False, order=None, twice=False, affine=False):
    B = env.pkg('surfalize').Batch
    ins, names, load = files(env, n, kind=kind, order=None if affine else order, affine=affine)
    batch = B(ins)
    env.concrete('number of files', len(batch) == n)
    r = register(batch, CHAINS[which])
    env.concrete('registering returns the batch', r is batch)
    seen = []
    res = batch.execute(multiprocessing=mp, preserve_chaining_order=preserve, on_file_complete=lambda x: seen.append(dict(x)))
    want = {names[i]: expected(env, load(i), CHAINS[which], preserve) for i in range(n)}
    got = rows(env, res, names)
    for k in names:
        if k in got:
            compare(env, k, got[k], want[k])
    env.concrete('hook is called once per file', sorted(str(x.get('file')) for x in seen) == sorted(names), str(seen)[:200])
    for x in seen:
        if x.get('file') in want:
            compare(env, f'hook {x["file"]}', {k: v for k, v in x.items() if k != 'file'}, want[x['file']])
    if twice:
        again = rows(env, batch.execute(multiprocessing=not mp, preserve_chaining_order=preserve), names)
        for k in names:
            if k in again:
                compare(env, f'again {k}', again[k], want[k])


def schedule(env, n, gates, kind='path'):
    """concurrent execution: every order of the segments between the gates"""
    from symx import pool
    B = env.pkg('surfalize').Batch
    ins, names, load = files(env, n, kind=kind, order=IDX)
    left = [gates - 1] * n
    order = []
    while sum(left):
        i = env.choice(f'next{len(order)}', [k for k in range(n) if left[k]])
        left[i] -= 1
        order.append(i)
    s = pool.Sched(order, gates - 1, 5)
    if env.symbolic:
        pool.SCHED[0] = s
        env.cleanup.append(lambda: pool.SCHED.__setitem__(0, None))
    count = {}

    def gate(surface):
        t = threading.get_ident()
        me, i = count.get(t) or (which(env, surface), 0)
        count[t] = (me, i + 1) if i + 1 < gates else None
        s.gate(me, i)
    batch = B(ins)
    batch.custom_operation(gate).Sz().center()
    steps = [lambda b: b.zoom(2).Sp(), lambda b: b.invert().Sv(), lambda b: b.Sa()]
    for k in range(gates - 2):
        batch.custom_operation(gate)
        steps[k](batch)

    def end(surface):
        gate(surface)
        return {'end': surface.data.mean(), 'which': surface.step_x}
    batch.custom_parameter(end)
    got = rows(env, batch.execute(multiprocessing=True), names)
    for i, k in enumerate(names):
        if k not in got:
            continue
        t = load(i)
        want = {'Sz': t.Sz()}
        t = t.center()
        if gates > 2:
            t = t.zoom(2)
            want['Sp'] = t.Sp()
        if gates > 3:
            t = t.invert()
            want['Sv'] = t.Sv()
        if gates > 4:
            want['Sa'] = t.Sa()
        want['end'], want['which'] = t.data.mean(), t.step_x
        compare(env, k, got[k], want)


ARGS = {'filter': [('lowpass', Fraction(2))], 'rotate': [(90,)], 'zoom': [(2,)], 'crop': [((0, 2, 0, 1),)], 'remove_outliers': [(1,), ()], 'threshold': [(20,)],
        'Vm': [(20,)], 'Vv': [(30,)], 'Smr': [(1,)], 'Smc': [(25,)], 'detrend_polynomial': [(1,)], 'homogeneity': [(('Sz',), 2)], 'depth': [(3,)]}
# not reachable on 3x4 points with arbitrary heights (covered by `texture`), or objects instead of numbers
TEXTURE = {'period', 'orientation', 'depth', 'aspect_ratio', 'Ssw', 'align', 'homogeneity'}
SKIP = {'Sdr', 'Sku', 'stepheight', 'cavity_volume', 'stepheight_level', 'Sal', 'Str', 'Std'}


EASY = {'Sa', 'Sz', 'Sq', 'Sp', 'Sv', 'Ssk', 'Sdq', 'Sdr', 'Sku'}


def registered(env):
    B = env.pkg('surfalize.batch')
    S = env.pkg('surfalize').Surface
    names = {}
    for klass in S.__mro__:
        for n, m in klass.__dict__.items():
            if hasattr(m, '_batch_type') and n not in names:
                names[n] = m._batch_type
    return names


def single(env, meth, affine=False):
    """a single registered method does what it does on the surface"""
    S = env.pkg('surfalize').Surface
    Bt = env.pkg('surfalize').Batch
    idx = [(0, 1), (1, 2), (0, 0), (1, 0), (0, 2), (1, 1)]
    affine = affine or meth[0] == 'S' and meth not in EASY or meth[0] == 'V'
    ins, names, load = files(env, 1, order=None if affine else idx, affine=affine)
    for a in ARGS.get(meth, [()]):
        a = tuple(x if env.symbolic or not isinstance(x, Fraction) else float(x) for x in a)
        b = Bt(ins)
        getattr(b, meth)(*a)
        held = []
        b.custom_parameter(lambda s: held.append(s) or {'nx': s.size.x})
        got = rows(env, b.execute(multiprocessing=False), names)[names[0]]
        s = load(0)
        r = getattr(s, meth)(*a)
        t = held[0]
        if isinstance(r, S):
            env.eqs(f'{meth}{a} heights', t.data, r.data)
            env.eq('step_x', t.step_x, r.step_x)
            env.eq('step_y', t.step_y, r.step_y)
            env.concrete('no further columns', set(got) == {'nx'}, str(got))
        else:
            env.eqs(f'{meth}{a} leaves the heights', t.data, load(0).data)
            if isinstance(r, tuple):
                env.eqs(f'{meth}{a}', list(got.values())[:-1], list(r))
            else:
                compare(env, meth, got, {meth: r, 'nx': s.size.x})


def texture(env):
    """periodic parameters, labels of parameters with two results, custom names"""
    a, c = env.real('a', 2, 4), env.real('c', -5, 5)
    lift(env)
    z = [[c + a * pwave(env, 24, 2 * j, 1) for j in range(24)]] * 4
    ins, names, load = files(env, 1, grids=[z])
    b = env.pkg('surfalize').Batch(ins)
    b.depth(3).period().orientation(method='fft').Ssw().depth(nprofiles=2, custom_name='d2')
    got = rows(env, b.execute(multiprocessing=False), names)[names[0]]
    s = load(0)
    d, e = s.depth(3), s.depth(nprofiles=2)
    compare(env, 'texture', got, {'depth_mean': d[0], 'depth_std': d[1], 'period': s.period(), 'orientation': s.orientation(method='fft'), 'Ssw': s.Ssw(), 'd2_mean': e[0], 'd2_std': e[1]})


def names_(env):
    """repeated parameters need names of their own"""
    P = env.pkg('surfalize')
    E = env.pkg('surfalize.exceptions').BatchError
    B = P.Batch
    ins, names, load = files(env, 2)
    b = B(ins)
    env.raises('nothing registered', lambda: b.execute(multiprocessing=False), E)
    b.Sa()
    env.raises('parameter twice', lambda: b.Sa(), E)
    b.Sa(custom_name='x')
    env.raises('name twice', lambda: b.Sq(custom_name='x'), E)
    env.raises('name of a parameter', lambda: b.Sq(custom_name='Sa'), E)
    env.raises('in bulk', lambda: b.roughness_parameters(['Sz', 'Sa']), E)
    f = lambda s: {'f': s.data.mean()}
    b.custom_parameter(f)
    env.raises('custom parameter twice', lambda: b.custom_parameter(f), E)
    b.center().center()
    got = rows(env, b.execute(multiprocessing=False), names)
    for i, n in enumerate(names):
        s = load(i)
        env.eq('Sa', got[n]['Sa'], s.Sa())
        env.eq('x', got[n]['x'], s.Sa())
        env.eq('f', got[n]['f'], s.data.mean())
        env.concrete('columns', set(got[n]) - {'Sz'} == {'Sa', 'x', 'f'}, str(set(got[n])))
    a, c = B(ins), B(ins)
    a.Sa()
    c.Sq()
    env.concrete('batches are independent', set(rows(env, a.execute(multiprocessing=False), names)[names[0]]) == {'Sa'})


def custom(env, mp):
    B = env.pkg('surfalize').Batch
    ins, names, load = files(env, 2)

    def amplify(s):
        s.data = s.data * 3

    def two(s):
        return {'mean': s.data.mean(), 'text': f'{s.size.x} points'}

    def shift(s):
        s.data = s.data + 5

    def first(s):
        return {'first': s.data[0, 0]}
    b = B(ins)
    r = b.custom_parameter(first).custom_operation(amplify).custom_parameter(two).Sz()
    env.concrete('registering returns the batch', r is b)
    got = rows(env, b.execute(multiprocessing=mp), names)
    late = rows(env, b.execute(multiprocessing=mp, preserve_chaining_order=False), names)
    b = B(ins).custom_operation(amplify).custom_parameter(two)
    b.zero().Sp().custom_operation(shift).center().custom_operation(amplify).custom_parameter(first)
    mixed = rows(env, b.execute(multiprocessing=mp), names)
    mlate = rows(env, b.execute(multiprocessing=mp, preserve_chaining_order=False), names)
    for i, n in enumerate(names):
        s = load(i)
        av, fi = s.data.mean(), s.data[0, 0]
        end = {'first': 9 * (fi - av), 'mean': 3 * av, 'text': '3 points', 'Sp': 3 * (s.data.max() - av)}
        compare(env, f'{n} mixed', mixed[n], end)
        compare(env, f'{n} mixed, operations first', mlate[n], end | {'mean': 0, 'Sp': 3 * end['Sp']})
    for i, n in enumerate(names):
        s = load(i)
        z0, m, z = s.data[0, 0], s.data.mean(), s.Sz()
        compare(env, n, got[n], {'first': z0, 'mean': 3 * m, 'text': '3 points', 'Sz': 3 * z})
        compare(env, f'{n} operations first', late[n], {'first': 3 * z0, 'mean': 3 * m, 'text': '3 points', 'Sz': 3 * z})


def errors(env, mp, where):
    """a parameter that cannot be calculated is nan for that file only; all else is unaffected"""
    P = env.pkg('surfalize')
    X = env.pkg('surfalize.exceptions')
    B = P.Batch
    ins, names, load = files(env, 2)
    bad = env.concint('bad', 0, 1)

    def isbad(s):
        return which(env, s) == bad
    err = X.FittingError if env.flag('fit') else X.CalculationError
    S = P.Surface
    b = B(ins)
    if where == 'custom':
        def f(s):
            if isbad(s):
                raise err('no')
            return {'f': s.Sa()}
        b.Sz().custom_parameter(f).Sq()
        want = lambda s, i: {'Sz': s.Sz(), 'f': env.nan() if i == bad else s.Sa(), 'Sq': s.Sq()}
    else:
        # a built-in parameter fails for one of the surfaces
        m = {'label': 'depth', 'plain': 'period'}[where]
        orig = getattr(S, m)

        def fail(self, *a, **k):
            if isbad(self):
                raise err('no')
            return (1, 2) if where == 'label' else 3
        if hasattr(orig, 'return_labels'):
            fail.return_labels = orig.return_labels
        setattr(S, m, fail)
        env.cleanup.append(lambda: setattr(S, m, orig))
        getattr(b.Sz(), m)()
        b.Sq()
        if where == 'label':
            want = lambda s, i: {'Sz': s.Sz(), 'depth_mean': env.nan() if i == bad else 1, 'depth_std': env.nan() if i == bad else 2, 'Sq': s.Sq()}
        else:
            want = lambda s, i: {'Sz': s.Sz(), 'period': env.nan() if i == bad else 3, 'Sq': s.Sq()}
    ok, r = env.attempt(lambda: b.execute(multiprocessing=mp))
    env.concrete('errors of parameters are ignored', ok, repr(r))
    if ok:
        got = rows(env, r, names)
        for i, n in enumerate(names):
            compare(env, n, got[n], want(load(i), i))
    env.raises('errors are raised on request', lambda: b.execute(multiprocessing=mp, ignore_errors=False), X.CalculationError)


def operation_errors(env, mp):
    """errors of operations and refused surfaces are never hidden"""
    B = env.pkg('surfalize').Batch
    z = [env.grid('z0', 2, 3), env.grid('z1', 2, 3)]
    z[env.concint('k', 0, 1)][0][1] = env.nan()
    ins, names, load = files(env, 2, grids=z)
    env.raises('filter of non-measured points', lambda: B(ins).filter('lowpass', 2).Sz().execute(multiprocessing=mp), ValueError)
    env.raises('parameter of non-measured points', lambda: B(ins).Sdq().execute(multiprocessing=mp), ValueError)
    got = rows(env, B(ins).fill_nonmeasured().Sdq().execute(multiprocessing=mp), names)
    for i, n in enumerate(names):
        env.eq(n, got[n]['Sdq'], load(i).fill_nonmeasured().Sdq())


def bulk(env):
    """roughness parameters in bulk"""
    P = env.pkg('surfalize')
    B = P.Batch
    Par = env.pkg('surfalize.batch')._Parameter
    ins, names, load = files(env, 1, affine=True)
    b = B(ins)
    r = b.roughness_parameters(['Sa', Par('Smr', args=(1,)), Par('Smr', kwargs={'c': 2}, custom_name='S2'), 'Sz'])
    env.concrete('registering returns the batch', r is b)
    got = rows(env, b.execute(multiprocessing=False), names)[names[0]]
    s = load(0)
    compare(env, 'bulk', got, {'Sa': s.Sa(), 'Smr': s.Smr(1), 'S2': s.Smr(2), 'Sz': s.Sz()})
    every = B(ins)
    every.roughness_parameters()
    reg = [x for x in P.Surface.ISO_PARAMETERS]
    E = env.pkg('surfalize.exceptions').BatchError
    for n in reg:
        env.raises(f'{n} is among all parameters', lambda: getattr(every, n)(), E)
    every2 = B(ins)
    every2.roughness_parameters()
    env.concrete('list of parameters is left alone', list(P.Surface.ISO_PARAMETERS) == reg)


def sources(env):
    """files from directories, added later, as str, Path, buffer"""
    import pathlib
    P = env.pkg('surfalize')
    M = env.pkg('surfalize.batch')
    S, B = P.Surface, P.Batch
    d = pathlib.Path(env.path('x')).parent
    k = env.concint('k', 1, 3)
    z = [[k, 2, 0], [4, 5 * k, 7]]
    s = env.surface(z, 1, 1)
    made = ['a.sflz', 'b.SUR', 'c.sflz', 'd.sdf', 'e.x.Sflz']
    for j, n in enumerate(made):
        (env.surface(z, j + 1, 1)).save(d / n)
    (d / 'f.txt').write_text('no topography')
    (d / 'sub').mkdir()
    s.save(d / 'sub' / 'g.sflz')
    b = io.BytesIO()
    s.save(b, format='.sflz')
    b.seek(0)
    buf = M.FileInput('buf', b)

    def check(label, batch, want):
        env.concrete(f'{label}: number', len(batch) == len(want), f'{len(batch)} for {want}')
        got = rows(env, batch.custom_parameter(lambda s: {'step': s.step_x}).execute(multiprocessing=False), want)
        for n in want:
            if n in made and n in got:
                env.close(f'{label}: {n}', got[n]['step'], made.index(n) + 1, Fraction(1, 10 ** 5), 10)
    check('all formats', B.from_dir(d), made)
    check('directory as text', B.from_dir(str(d), file_extensions='.sur'), ['b.SUR'])
    check('extension in capitals', B.from_dir(d, file_extensions='.SFLZ'), [n for n in made if n.lower().endswith('.sflz')])
    check('list of extensions', B.from_dir(d, file_extensions=['.sflz', '.sdf']), ['a.sflz', 'c.sflz', 'e.x.Sflz', 'd.sdf'])
    check('generator', B(d.glob('*.sflz')), ['a.sflz', 'c.sflz'])
    x = B([str(d / 'a.sflz')])
    r = x.add_files(d / 'b.SUR').add_files([str(d / 'c.sflz'), buf]).add_dir(d, '.sdf')
    env.concrete('adding returns the batch', r is x)
    check('added', x, ['a.sflz', 'b.SUR', 'c.sflz', 'buf', 'd.sdf'])
    check('single buffer', B([]).add_files(buf), ['buf'])
    check('directory added', B([d / 'sub' / 'g.sflz']).add_dir(str(d)), ['g.sflz'] + made)
    y = [d / 'a.sflz']
    w = B(y)
    w.add_files(d / 'c.sflz')
    env.concrete('list of the caller is left alone', len(y) == 1)
    env.raises('missing file', lambda: B([d / 'none.sflz']).Sa().execute(multiprocessing=False), Exception)


def additional(env, mp, how):
    """columns of a table are attached to the file they belong to; file name parameters"""
    import pandas
    P = env.pkg('surfalize')
    ins, names, load = files(env, 3)
    perm = env.choice('perm', [(0, 1, 2), (2, 0, 1), (1, 0, 2), (2, 1, 0)])
    x = env.path('data.xlsx')
    pandas.DataFrame({'power': [10 * (i + 1) for i in perm], 'file': [names[i] for i in perm], 'note': [f'n{i}' for i in perm]}).to_excel(x, index=False)
    b = P.Batch(ins, additional_data=x)
    b.Sz()
    if how == 'batch':
        env.concrete('registering returns the batch', b.extract_from_filename('P<p|int>_<n|float|n>.sflz') is b)
    r = b.execute(multiprocessing=mp)
    if how == 'result':
        r.extract_from_filename('P<p|int>_<n|float|n>.sflz')
    got = rows(env, r, names)
    for i, n in enumerate(names):
        want = {'power': 10 * (i + 1), 'note': f'n{i}', 'Sz': load(i).Sz()}
        if how:
            want |= {'p': i, 'n': 10 - i}
        compare(env, n, got[n], want)
    y = env.path('bad.xlsx')
    pandas.DataFrame({'name': names}).to_excel(y, index=False)
    env.raises('table without file names', lambda: P.Batch(ins, additional_data=y), ValueError)


def saved(env):
    """the table is written to the given file; results can be used like a table"""
    import pandas
    P = env.pkg('surfalize')
    ins, names, load = files(env, 2)
    b = P.Batch(ins)
    b.custom_parameter(lambda s: {'nx': int(s.size.x), 'twice': 2 * int(s.size.y)})
    x = env.path('out.xlsx')
    r = b.execute(multiprocessing=False, saveto=x)
    env.concrete('the table is written', os.path.isfile(x))
    df = pandas.read_excel(x)
    env.concrete('saved rows', sorted(df['file']) == sorted(names))
    env.concrete('saved values', list(df['nx']) == [3, 3] and list(df['twice']) == [4, 4])
    env.concrete('columns as attributes', list(r['nx']) == [3, 3] and list(r.twice) == [4, 4] and r.shape == df.shape[:1] + (3,))
    r['new'] = [1, 2]
    env.concrete('columns can be added', list(r['new']) == [1, 2] and 'new' in r.get_dataframe().columns)
    env.concrete('later executions start afresh', 'new' not in b.execute(multiprocessing=False).get_dataframe().columns)


def harnesses(tier):
    hs = []
    idx = [(0, 1), (1, 2), (0, 0), (1, 0), (0, 2), (1, 1)]
    for w in CHAINS:
        hs.append(H(f'chain {w}', chain, time=90, which=w, n=1 if w in ('arguments', 'trend') else 2, order=idx, affine=w == 'arguments', twice=True, bounds='2x3 points per file'))
        hs.append(H(f'chain {w} operations first', chain, time=90, which=w, n=1, preserve=False, order=idx, affine=w == 'arguments', bounds='2x3 points'))
    hs.append(H('chain buffers', chain, time=90, which='interlaced', n=2, kind='buffer', order=idx, twice=True, bounds='2x3 points per file'))
    hs.append(H('chain concurrent', chain, time=90, which='interlaced', n=3, mp=True, order=idx, bounds='2x3 points per file'))
    for n, g, kind in ((2, 3, 'path'), (2, 4, 'path'), (2, 4, 'buffer'), (3, 2, 'path')):
        hs.append(H(f'schedule {n} files {g} gates {kind}', schedule, time=120, max_paths=2000, n=n, gates=g, kind=kind, bounds=f'{n} files, every order of the segments between {g} gates'))
    for name in BATCHED:
        if name not in SKIP and name not in TEXTURE and not name.startswith('get_'):
            hs.append(H(f'single {name}', single, time=60, meth=name, bounds='2x3 points in a fixed order'))
    for name in ('Sdr', 'Sku'):
        hs.append(H(f'single {name}', single, time=60, meth=name, affine=True, bounds='2x3 points, any scale and offset'))
    hs.append(H('texture', texture, time=90, bounds='4x24 points, any amplitude and offset'))
    hs.append(H('names', names_, time=60, bounds='two files'))
    for mp in (False, True):
        hs.append(H(f'custom {mp}', custom, time=60, mp=mp, bounds='two files'))
        hs.append(H(f'operation errors {mp}', operation_errors, time=60, mp=mp, bounds='two files'))
        for w in ('custom', 'label', 'plain'):
            hs.append(H(f'errors {w} {mp}', errors, time=60, mp=mp, where=w, bounds='two files'))
        for how in (None, 'batch', 'result'):
            hs.append(H(f'additional {mp} {how}', additional, time=60, mp=mp, how=how, bounds='three files, orders of the table'))
    hs.append(H('bulk', bulk, time=60, bounds='one file'))
    hs.append(H('sources', sources, time=60, bounds='seven files'))
    hs.append(H('saved', saved, time=60, bounds='two files'))
    if tier == 'thorough':
        for n, g in ((2, 5), (3, 3), (4, 2)):
            hs.append(H(f'T schedule {n} files {g} gates', schedule, time=900, max_paths=5000, n=n, gates=g, bounds=f'{n} files, {g} gates'))
        for w in CHAINS:
            for k in ('path', 'buffer'):
                hs.append(H(f'T chain {w} {k}', chain, time=600, which=w, n=2, kind=k, mp=True, twice=True, order=idx, affine=w == 'arguments', bounds='2x3 points per file'))
    return hs


BATCHED = ['center', 'zero', 'invert', 'remove_outliers', 'threshold', 'filter', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'Vm', 'Vv', 'fill_nonmeasured', 'level', 'detrend_polynomial',
           'rotate', 'zoom', 'crop', 'Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'projected_area', 'surface_area', 'Sdr', 'Sdq', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2',
           'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Smr', 'Smc', 'Sxp', 'Sdc']
