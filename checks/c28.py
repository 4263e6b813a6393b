"""Parameters encoded in file names: the numbers and texts written into a name according to a template are the ones extracted.

File names are sequences of characters of which some are solver variables.  The regular expression the code builds is executed
by a backtracking matcher over such sequences (`find`), written from the documentation of `re`; the table is a small stand-in
for a pandas data frame.  The replay uses pandas and `re`."""
from fractions import Fraction
from .common import H
NOTE = 'up to three files, numbers of up to three digits before and two after the decimal mark, texts of up to three letters, enumerated templates'


# ------------------------------------------------------------------ symbolic text
class Text:
    def __init__(self, cs):
        self.c = list(cs)           # str (one character) or symbolic code

    def __len__(self):
        return len(self.c)

    def __add__(self, o):
        return Text(self.c + list(o.c if isinstance(o, Text) else o))

    def __radd__(self, o):
        return Text(list(o) + self.c)

    def concrete(self):
        return all(isinstance(x, str) for x in self.c)


def code(x):
    return ord(x) if isinstance(x, str) else x


def is_(x, lo, hi=None):
    """character within a range (forks when undecided)"""
    x = code(x)
    if hi is None or lo == hi:
        return bool(x == lo)
    return bool(x >= lo) and bool(x <= hi)


def inset(items, x):
    import re._constants as K
    neg = False
    for op, a in items:
        if op is K.NEGATE:
            neg = True
    for op, a in items:
        if op is K.NEGATE:
            continue
        if op is K.LITERAL:
            r = is_(x, a)
        elif op is K.RANGE:
            r = is_(x, *a)
        elif op is K.CATEGORY:
            r = category(a, x)
        else:
            unsupported(op)
        if r:
            return not neg
    return neg


def category(a, x):
    import re._constants as K
    table = {K.CATEGORY_DIGIT: [(48, 57)], K.CATEGORY_WORD: [(48, 57), (65, 90), (97, 122), (95, 95)], K.CATEGORY_SPACE: [(9, 13), (32, 32)]}
    neg = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE}
    if a in neg:
        return not any(is_(x, *r) for r in table[neg[a]])
    return any(is_(x, *r) for r in table[a])


def unsupported(op):
    from symx.core import Unsupported
    raise Unsupported(f'regular expression {op}')


def step(nodes, k, s, i, g):
    """every way to match nodes[k:] from i on, in the order of preference: (end, groups)"""
    import re._constants as K
    if k == len(nodes):
        yield i, g
        return
    op, a = nodes[k]
    if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN, K.CATEGORY):
        if i < len(s.c):
            x = s.c[i]
            ok = is_(x, a) if op is K.LITERAL else not is_(x, a) if op is K.NOT_LITERAL else not is_(x, 10) if op is K.ANY else inset(a, x) if op is K.IN else category(a, x)
            if ok:
                yield from step(nodes, k + 1, s, i + 1, g)
    elif op is K.SUBPATTERN:
        num, p = a[0], list(a[-1])
        for j, h in step(p, 0, s, i, g):
            yield from step(nodes, k + 1, s, j, h if num is None else {**h, num: (i, j)})
    elif op is K.BRANCH:
        for p in a[1]:
            for j, h in step(list(p), 0, s, i, g):
                yield from step(nodes, k + 1, s, j, h)
    elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, p = a
        p = list(p)

        def rep(n, i, g):
            if op is K.MIN_REPEAT and n >= lo:
                yield from step(nodes, k + 1, s, i, g)
            if n < hi:
                for j, h in step(p, 0, s, i, g):
                    if j > i or n < lo:
                        yield from rep(n + 1, j, h)
            if op is K.MAX_REPEAT and n >= lo:
                yield from step(nodes, k + 1, s, i, g)
        yield from rep(0, i, g)
    elif op is K.AT:
        if a in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and i == 0 or a in (K.AT_END, K.AT_END_STRING) and i == len(s.c):
            yield from step(nodes, k + 1, s, i, g)
        elif a not in (K.AT_BEGINNING, K.AT_BEGINNING_STRING, K.AT_END, K.AT_END_STRING):
            unsupported(a)
    else:
        unsupported(op)


def find(pattern, s, start=None):
    """groups of the first match of the compiled pattern, or None"""
    import re
    import re._parser as P
    if pattern.flags & ~re.UNICODE:
        unsupported('flags')
    nodes = list(P.parse(pattern.pattern))
    for i in range(len(s.c) + 1) if start is None else [start]:
        for j, g in step(nodes, 0, s, i, {}):
            return {n: Text(s.c[a:b]) for n, (a, b) in g.items()}
    return None


# ------------------------------------------------------------------ table
def missing(x):
    return x is None or type(x).__name__ in ('NAType', 'NaTType') or isinstance(x, float) and x != x


class Columns(list):
    def get_loc(self, c):
        return self.index(c)

    def tolist(self):
        return list(self)


class Col:
    def __init__(self, env, vals):
        self.env, self.v = env, list(vals)

    @property
    def str(self):
        return self

    def extract(self, pat, flags=0, expand=True):
        import re
        p = re.compile(pat, flags)
        names = {v: k for k, v in p.groupindex.items()}
        if not p.groups:
            raise ValueError('pattern contains no capture groups')
        out = Frame(self.env, {})
        found = [None if v is None else find(p, v) for v in self.v]
        for n in range(1, p.groups + 1):
            out.d[names.get(n, n - 1)] = Col(self.env, [None if f is None else f.get(n) for f in found])
        return out if expand or p.groups > 1 else next(iter(out.d.values()))

    def replace(self, a, b, n=-1, case=None, flags=0, regex=False):
        if regex or len(a) != 1:
            unsupported('replace')

        def one(t):
            if t is None:
                return None
            out = []
            for x in t.c:
                out += list(b) if is_(x, ord(a)) else [x]
            return Text(out)
        return Col(self.env, [one(t) for t in self.v])

    def astype(self, t, errors='raise'):
        name = t if isinstance(t, str) else getattr(t, '__name__', str(t))
        conv = {'float': self.float_, 'float64': self.float_, 'int': self.int_, 'int64': self.int_, 'Int64': lambda x: None if missing(x) else self.int_(x), 'str': lambda x: x, 'string': lambda x: x, 'object': lambda x: x}[name]
        return Col(self.env, [conv(x) for x in self.v])

    def int_(self, t):
        if t is None:
            raise ValueError('cannot convert float NaN to integer')
        if not isinstance(t, Text):
            return t
        v = 0
        if not t.c:
            raise ValueError('invalid literal for int')
        for x in t.c:
            if not is_(x, 48, 57):
                raise ValueError('invalid literal for int')
            v = v * 10 + (code(x) - 48)
        return v

    def float_(self, t):
        if t is None:
            return self.env.nan()
        if not isinstance(t, Text):
            return t
        dots = [i for i, x in enumerate(t.c) if is_(x, 46)]
        if len(dots) > 1 or len(t.c) == len(dots):
            raise ValueError('could not convert string to float')
        k = dots[0] if dots else len(t.c)
        a = self.int_(Text(t.c[:k])) if k else 0
        b = self.int_(Text(t.c[k + 1:])) if t.c[k + 1:] else 0
        return self.env.num(a) + self.env.num(b) / 10 ** (len(t.c) - k - 1) if dots else self.env.num(a)

    def isna(self):
        return Col(self.env, [missing(x) for x in self.v])
    isnull = isna

    def notna(self):
        return Col(self.env, [not missing(x) for x in self.v])
    notnull = notna

    def any(self):
        return any(self.v)

    def all(self):
        return all(self.v)

    @property
    def hasnans(self):
        return any(map(missing, self.v))

    def map(self, f):
        return Col(self.env, [f(x) for x in self.v])
    apply = map

    def copy(self, deep=True):
        return Col(self.env, self.v)

    @property
    def iloc(self):
        return self.v

    def __iter__(self):
        return iter(self.v)

    def __len__(self):
        return len(self.v)

    def tolist(self):
        return list(self.v)


class Frame:
    def __init__(self, env, d):
        self.env, self.d = env, {k: v if isinstance(v, Col) else Col(env, v) for k, v in d.items()}

    @property
    def columns(self):
        return Columns(self.d)

    def keys(self):
        return self.columns

    def __iter__(self):
        return iter(list(self.d))

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        if isinstance(k, list):
            return Frame(self.env, {x: self.d[x].copy() for x in k})
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = self.bc(v)

    def bc(self, v):
        n = max([len(x) for x in self.d.values()] or [0])
        return v.copy() if isinstance(v, Col) else Col(self.env, list(v) if isinstance(v, (list, tuple)) else [v] * n)

    def insert(self, i, k, v, allow_duplicates=False):
        if k in self.d:
            raise ValueError(f'cannot insert {k}, already exists')
        items = list(self.d.items())
        items.insert(i, (k, self.bc(v)))
        self.d = dict(items)

    def assign(self, **kw):
        out = self.copy()
        for k, v in kw.items():
            out.d[k] = self.bc(v)
        return out

    def copy(self, deep=True):
        return Frame(self.env, {k: v.copy() for k, v in self.d.items()})

    @property
    def loc(self):
        unsupported('loc')


# ------------------------------------------------------------------ harness
def digit(env, n):
    return env.int_(n, 48, 57)


def letter(env, n):
    return env.int_(n, 97, 122)


def join(env, parts):
    """file name of characters and codes"""
    if env.symbolic:
        return Text(parts)
    return ''.join(p if isinstance(p, str) else chr(p) for p in parts)


def value(env, kind, name):
    """(characters, value)"""
    if kind == 'int':
        cs = [digit(env, f'{name}{k}') for k in range(env.concint(name + 'n', 1, 3))]
        v = 0
        for c in cs:
            v = v * 10 + (c - 48)
        return cs, v
    if kind == 'float':
        a = [digit(env, f'{name}{k}') for k in range(env.concint(name + 'n', 1, 2))]
        m = env.concint(name + 'm', 0, 2)
        b = [digit(env, f'{name}f{k}') for k in range(m)]
        v = 0
        for c in a + b:
            v = v * 10 + (c - 48)
        sep = [env.choice(name + 's', ['.', ','])] if m else []
        return a + sep + b, env.num(v) / 10 ** m
    cs = [letter(env, f'{name}{k}') for k in range(env.concint(name + 'n', 1, 3))]
    return cs, cs


def same(env, label, got, kind, want):
    if kind == 'str':
        if env.symbolic:
            if env.concrete(f'{label}: length of the text', isinstance(got, Text) and len(got) == len(want), repr(got)):
                for x, y in zip(got.c, want):
                    env.check(f'{label}: text', code(x) == y)
        else:
            env.concrete(f'{label}: length of the text', isinstance(got, str) and len(got) == len(want), repr(got))
            env.concrete(f'{label}: text', got == ''.join(map(chr, want)), repr(got))
    else:
        env.eq(label, env.num(got) if not hasattr(got, 'item') else got.item(), want)
        env.concrete(f'{label}: type', env.symbolic or not hasattr(got, 'dtype') or got.dtype.kind == kind[0], str(type(got)))


def parse(template):
    """[separator or (name, kind, prefix, suffix)] from the documented syntax"""
    import re
    out = []
    for sep, tok in re.findall(r'([^<>]*)(?:<([^<>]*)>)?', template):
        out.append(sep)
        if tok:
            a = tok.split('|') + ['', '']
            out.append(tuple(a[:4]))
    return out


def table(env, d):
    if env.symbolic:
        return Frame(env, d)
    import pandas
    return pandas.DataFrame(d)


def extract(env, template, nfiles=1, pre='', post='', other=False):
    files, want = [], []
    items = parse(template)
    kinds = {t[0]: t[1] for t in items if isinstance(t, tuple)}
    for i in range(nfiles):
        parts, vals = list(pre), {}
        for t in items:
            if isinstance(t, str):
                parts += list(t)
            else:
                cs, v = value(env, t[1], f'{t[0]}{i}_')
                parts += list(t[2]) + cs + list(t[3])
                vals[t[0]] = v
        files.append(join(env, parts + list(post)))
        want.append(vals)
    d = {'power': [7 + i for i in range(nfiles)], 'file': files, 'Sa': [env.real(f'Sa{i}', -5, 5) for i in range(nfiles)]}
    df = table(env, d)
    res = env.pkg('surfalize.batch').BatchResult(df)
    res.extract_from_filename(template)
    out = res.get_dataframe()
    names = list(kinds)
    env.concrete('columns follow the file name in the order of the template', list(out.columns) == ['power', 'file'] + [n for n in names if n != 'power'] + ['Sa'], str(list(out.columns)))
    for n in names:
        if not env.concrete(f'column {n}', n in list(out.columns) and len(out[n]) == nfiles):
            return
        for i in range(nfiles):
            same(env, f'{n} of file {i}', out[n].iloc[i], kinds[n], want[i][n])
    for i in range(nfiles):
        env.eq('other columns are kept', env.num(out['Sa'].iloc[i]), d['Sa'][i])
        if 'power' not in names:
            env.eq('other columns are kept', env.num(out['power'].iloc[i]), 7 + i)
    env.concrete('the given table is left alone', list(df.columns) == ['power', 'file', 'Sa'])


def nomatch(env):
    """a name that does not follow the template never yields a value"""
    B = env.pkg('surfalize.batch').BatchResult
    a = [digit(env, f'a{k}') for k in range(2)]
    c = letter(env, 'c')
    env.assume(c != ord('p'))
    cases = [['P'] + a + ['_', 'M'] + a, ['Q'] + a + ['_', 'N'] + a, ['P', c] + a + ['_', 'N'] + a, ['P'] + a + ['-', 'N'] + a, ['N'] + a + ['_', 'P'] + a, ['P'] + a + ['_', 'N', c]]
    f = join(env, env.choice('case', cases))
    g = join(env, ['P'] + a + ['_', 'N'] + a)
    res = B(table(env, {'file': [f, g]}))
    res.extract_from_filename('<p|float|P>_<n|float|N>')
    out = res.get_dataframe()
    for k in ('p', 'n'):
        env.check(f'{k} is missing', env.isnan(out[k].iloc[0]))
        env.eq(f'{k} of the other file', env.num(out[k].iloc[1]), (a[0] - 48) * 10 + a[1] - 48)
    res = B(table(env, {'file': [f, g]}))
    res = B(table(env, {'file': [f, g]}))
    res.extract_from_filename('<p|int|P>_<n|int|N>')
    out = res.get_dataframe()
    for k in ('p', 'n'):
        v = out[k].iloc[0]
        env.concrete(f'no integer {k}', missing(v), repr(v))
        same(env, f'integer {k} of the other file', out[k].iloc[1], 'int', (a[0] - 48) * 10 + a[1] - 48)


def literal(env, mark, where):
    """characters with a meaning in regular expressions stand for themselves, in every part of a template"""
    B = env.pkg('surfalize.batch').BatchResult
    t = '{0}<a|int|P{1}|{2}K>{3}<b|int|{4}Q>{5}'.format(*[('w' if k % 2 else 'x') + mark + 'y' if k == where else 'mnopqr'[k] for k in range(6)])
    d, e, c = digit(env, 'd'), digit(env, 'e'), letter(env, 'c')
    parts = [list(('w' if k % 2 else 'x') + mark + 'y') if k == where else ['mnopqr'[k]] for k in range(6)]

    def name(ps):
        return join(env, ps[0] + ['P'] + ps[1] + [d] + ps[2] + ['K'] + ps[3] + ps[4] + ['Q', e] + ps[5])
    swap, gone, twice = [list(parts) for _ in range(3)]
    k = parts[where]
    swap[where], gone[where], twice[where] = [k[0], c, k[2]], [k[0], k[2]], [k[0], k[0], k[2]]
    files = [name(x) for x in (parts, swap, gone, twice)]
    res = B(table(env, {'file': files}))
    res.extract_from_filename(t)
    out = res.get_dataframe()
    for n, v in (('a', d), ('b', e)):
        same(env, f'{n} of the name that follows the template', out[n].iloc[0], 'int', v - 48)
        for i in (1, 2, 3):
            env.concrete(f'{n} of name {i} that does not', missing(out[n].iloc[i]), repr(out[n].iloc[i]))


def refused(env):
    M = env.pkg('surfalize.batch')
    d = digit(env, 'd')
    for t in ('<p|int', 'a<p|in<t>', '<p>', '<p|integer>', '<p|Int>', 'x<>', '<p|int><q>', '<p|int>_<q|float'):
        res = M.BatchResult(table(env, {'file': [join(env, ['P', d])]}))
        env.raises(f'template {t}', lambda: res.extract_from_filename(t), M.ParsingError)


TEMPLATES = ['<p|int>', '<p|int|P>', '<p|float>', '<p|float|F|kHz>', '<p|int||mm>', '<a|int|P>_<b|int|N>', '<a|float|P>_<b|int|N>', '<a|float|F>-<b|float|G>', '<a|str>_<b|int>', '<a|int>_<b|str>', '<a|str|S>-<b|str|T>',
             'Sample<a|int>_x<b|float>um', '<a|int>(<b|int>)', '[<a|float>]', '<a|float>+<b|float>', 'a.b*<a|int>', '<a|int|^>$<b|int|?>', '<a|int|{|}><b|int|\\|>'[:-2] + '>',
             '<power|int|P>_<b|float|B>']


def harnesses(tier):
    hs = []
    for t in TEMPLATES:
        hs.append(H(f'template {t}', extract, time=90, max_paths=2000, template=t, bounds='one file, numbers of up to 3+2 digits'))
        hs.append(H(f'template {t} suffix', extract, time=90, max_paths=2000, template=t + '.vk4', bounds='one file'))
    for t in ('<p|int|P>', '<p|float|P>mm', '<a|str|S>_'):
        hs.append(H(f'within {t}', extract, time=90, max_paths=2000, template=t, pre='Lens_', post='.vk4' if 'str' not in t else '', bounds='name with further text'))
        hs.append(H(f'files {t}', extract, time=120, max_paths=4000, template=t, nfiles=2, post='.sur' if 'str' not in t else '', bounds='two files'))
    for k in range(6):
        for m in '.+*?^$()[]{}\\|':
            if m != '|' or k in (0, 3, 5):
                hs.append(H(f'literal {m} at {k}', literal, mark=m, where=k, time=30, bounds='arbitrary digits, arbitrary other letter'))
    hs.append(H('no match', nomatch, time=60, bounds='six deviations'))
    hs.append(H('refused', refused, time=30, bounds='eight templates'))
    hs.append(H('documented', extract, time=300, max_paths=4000, template='P<power|int>_<n|int|N>_<fluence|float|F>_<frequency|int|FREP|kHz>.vk4', bounds='one file'))
    if tier == 'thorough':
        hs.append(H('T files', extract, time=1500, max_paths=20000, template='<a|float|P>_<b|int|N>', nfiles=2, post='.sur', bounds='two files'))
        hs.append(H('T three files', extract, time=1500, max_paths=20000, template='<a|int|P>', nfiles=3, post='.sur', bounds='three files'))
        hs.append(H('T documented', extract, time=1500, max_paths=20000, template='<power|float|P>_<pulses|int|N>_<fluence|float|F>_<frequency|float|FREP|kHz>', post='.vk4', bounds='one file'))
    return hs
