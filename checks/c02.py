"""Profile height and hybrid parameters equal their ISO 4287/21920 definitions, per sampling length where defined so."""
import itertools
from fractions import Fraction
from .common import H, height_defs, wide, big
NOTE = 'ordinates are arbitrary reals; float rounding is outside the claim'


def mk(env, z):
    step = env.pos('step')
    return env.pkg('surfalize.profile').Profile(env.array(z), step), step


def defs(env, n, how='method'):
    z = env.vec('z', n)
    d = height_defs(env, z)
    env.assume(d['q2'] > 0)
    p, step = mk(env, z)
    names = ['Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq']
    got = {k: getattr(p, k)() for k in names} if how == 'method' else p.roughness_parameters(names)
    env.eq('Ra', got['Ra'], d['a'])
    env.eq('Rq', got['Rq'], d['q'])
    env.eq('Rt', got['Rt'], d['z'])
    env.eq('Rsk', got['Rsk'] * d['q'] * d['q2'], d['m3'])
    env.eq('Rku', got['Rku'] * d['q2'] * d['q2'], d['m4'])
    env.eq('Rdq', got['Rdq'] * got['Rdq'] * step * step, env.mean((b - a) * (b - a) for a, b in zip(z, z[1:])))
    env.nonneg('Rdq >= 0', got['Rdq'])


def splits(n, k):
    """all divisions of n points into k contiguous sections of (almost) equal size"""
    q, r = divmod(n, k)
    for big in itertools.combinations(range(k), r):
        out, i = [], 0
        for j in range(k):
            w = q + (1 if j in big else 0)
            out.append((i, i + w))
            i += w
        yield out


def sections(env, n, k, default=False):
    """Rp, Rv, Rz on k sampling lengths"""
    z = env.vec('z', n)
    p, step = mk(env, z)
    m = env.mean(z)
    kw = {} if default else {'n_sections': k}
    if default:
        k = 5
    rp, rv, rz = p.Rp(**kw), p.Rv(**kw), p.Rz(**kw)
    c1, c2, c3 = [], [], []
    opts = list(splits(n, k))
    for s in opts:
        c1.append(env.mean(env.max(z[a:b]) - m for a, b in s))
        c2.append(env.mean(env.abs(env.min(z[a:b]) - m) for a, b in s))
        c3.append(env.mean(env.max(z[a:b]) - env.min(z[a:b]) for a, b in s))
    if len(opts) == 1:
        env.eq('Rp', rp, c1[0])
        env.eq('Rv', rv, c2[0])
        env.eq('Rz', rz, c3[0])
    else:
        def close(a, b):
            d = env.abs(a - b)
            return d <= (0 if env.symbolic else 1e-9 * (1 + abs(b)))
        env.check('Rp is the mean over an even division', env.or_(*[close(rp, c) for c in c1]))
        env.check('Rv is the mean over an even division', env.or_(*[close(rv, c) for c in c2]))
        env.check('Rz is the mean over an even division', env.or_(*[close(rz, c) for c in c3]))
    if k == 1:
        env.eq('Rz over one section is Rt', rz, p.Rt())
        env.eq('Rz = Rp + Rv over one section', rz, rp + rv)


def uneven(env, n, k):
    """as sections, on a fixed pattern with any scale and offset"""
    f, c = env.real('f', Fraction(1, 100), 100), env.real('c', -100, 100)
    q = [(i * i * 7 + 3 * i) % 23 + (i % 4) * 5 for i in range(n)]
    p, step = mk(env, [c + f * v for v in q])
    m = Fraction(sum(q), n)
    R, V, Z = set(), set(), set()
    for s in splits(n, k):
        R.add(sum(max(q[a:b]) - m for a, b in s) / k)
        V.add(sum(abs(m - min(q[a:b])) for a, b in s) / k)
        Z.add(Fraction(sum(max(q[a:b]) - min(q[a:b]) for a, b in s), k))
    t = 0 if env.symbolic else 1e-8
    num = (lambda v: v) if env.symbolic else float
    got = {'Rp': p.Rp(n_sections=k), 'Rv': p.Rv(n_sections=k), 'Rz': p.Rz(n_sections=k)}
    for l, want in (('Rp', R), ('Rv', V), ('Rz', Z)):
        env.check(f'{l} is the mean over an even division', env.or_(*[env.abs(got[l] - f * num(w)) <= t * (f + 1) for w in want]))
    if k == 5:
        env.eq('five sections by default', p.Rz(), p.Rz(n_sections=5))


def bad_sections(env, n):
    p, _ = mk(env, env.vec('z', n))
    for k in (0, -1, n + 1, n + 7):
        for m in ('Rp', 'Rv', 'Rz'):
            env.raises(f'{m}(n_sections={k}) on {n} points is rejected', lambda: getattr(p, m)(n_sections=k), ValueError)


def length(env, n):
    z = env.vec('z', n)
    p, step = mk(env, z)
    env.eq('length', p.length_um, (n - 1) * step)
    env.concrete('size', p.size == n)


PAT = [0, 3, -1, 2, 5, -4, 1, 1, 2, 7]


def scaling(env, sign, pat=PAT):
    a, c = wide(env), env.real('c', -5, 5)
    step = env.pos('step')
    m = Fraction(sum(pat), len(pat))
    d = [sign * (v - m) for v in pat]
    N = len(d)
    q2 = sum(x * x for x in d) / N
    k = (lambda f: f) if env.symbolic else float
    p = env.pkg('surfalize.profile').Profile(env.array([a * (sign * v + c) for v in pat]), step)
    env.eq('Ra', p.Ra() / a, k(sum(abs(x) for x in d) / N))
    env.eq('Rq', p.Rq() / a * (p.Rq() / a), k(q2))
    env.eq('Rt', p.Rt() / a, k(max(d) - min(d)))
    env.eq('Rsk', p.Rsk() * p.Rsk(), k((sum(x ** 3 for x in d) / N) ** 2 / q2 ** 3))
    env.check('Rsk sign', p.Rsk() > 0 if sum(x ** 3 for x in d) > 0 else p.Rsk() < 0)
    env.eq('Rku', p.Rku(), k(sum(x ** 4 for x in d) / N / q2 ** 2))
    for n in (1, 2, 5, 10):
        w = N // n
        S = [d[i:i + w] for i in range(0, N, w)]
        env.eq(f'Rp {n}', p.Rp(n_sections=n) / a, k(sum(max(x) for x in S) / n))
        env.eq(f'Rv {n}', p.Rv(n_sections=n) / a, k(sum(abs(min(x)) for x in S) / n))
        env.eq(f'Rz {n}', p.Rz(n_sections=n) / a, k(sum(max(x) - min(x) for x in S) / n))
    q = p.Rdq() / a * step
    env.eq('Rdq', q * q, k(Fraction(sum((x - y) ** 2 for x, y in zip(pat, pat[1:])), N - 1)))


def explicit_length(env, n):
    """parameters depend on ordinates and step, not on the stated length"""
    z = env.vec('z', n)
    P = env.pkg('surfalize.profile').Profile
    step, f = env.pos('step'), env.real('f', Fraction(1, 2), 2)
    p, q = P(env.array(z), step, length_um=step * (n - 1) * f), P(env.array(z), step)
    env.assume(height_defs(env, z)['q2'] > 0)
    env.eq('stated length', p.length_um, step * (n - 1) * f)
    for k in ('Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq'):
        env.eq(f'{k} does not depend on the stated length', getattr(p, k)(), getattr(q, k)())


def harnesses(tier):
    hs = [H('defs 3', defs, n=3, time=40, bounds='3 points, arbitrary reals'), H('defs 4', defs, n=4, time=40, bounds='4 points', how='dict'), H('defs 5', defs, n=5, time=40, bounds='5 points')]
    hs += [H(f'sections {n}/{k}', sections, n=n, k=k, time=40, bounds=f'{n} points in {k} sections')
           for n, k in [(4, 1), (4, 2), (6, 3), (6, 2), (6, 6)]]
    hs += [H('sections uneven 5/2', sections, n=5, k=2, time=40, bounds='5 points in 2 sections'),
           H('sections default', sections, n=5, k=0, default=True, time=40, bounds='5 points, default number of sections'),
           H('bad sections', bad_sections, n=4, bounds='4 points, section counts 0,-1,5,11'), H('length', length, n=5, bounds='5 points')]
    hs += [H(f'scaling {k}', scaling, sign=k, time=40, bounds='10 points, fixed pattern, height scale 1e-6..1e4, any offset') for k in (1, -1)]
    hs += [H(f'large {n}', scaling, sign=1, pat=big(1, n)[0], time=150, bounds=f'{n} points, fixed pattern, height scale 1e-6..1e4, any offset') for n in (260, 1030, 33000)]
    hs.append(H('explicit length', explicit_length, n=4, time=30, bounds='4 points, any stated length'))
    hs += [H(f'uneven {n}/{k}', uneven, n=n, k=k, time=40, bounds=f'{n} points of a fixed pattern in {k} sections, any scale and offset') for n, k in ((6, 4), (11, 5), (9, 5), (7, 6), (14, 4), (23, 10), (50, 7), (33, 32), (101, 5))]
    if tier == 'thorough':
        hs += [H('defs T 7', defs, n=7, time=300, query_s=40, bounds='7 points'), H('defs T 9', defs, n=9, time=300, query_s=40, bounds='9 points'),
               H('sections T 9/3', sections, n=9, k=3, time=300, query_s=40, bounds='9/3'), H('sections T default 10', sections, n=10, k=0, default=True, time=300, query_s=40, bounds='10/5'),
               H('sections T 7/3', sections, n=7, k=3, time=300, query_s=40, bounds='7/3')]
    return hs
