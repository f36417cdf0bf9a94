"""validation of the engine: the same operations, symbolic vs. native (witness replay)"""
import base64
import bisect
import collections
import contextlib
import copy
import functools
import itertools
import io
import operator
import os
import string
import datetime
import json
import re
import uuid
from symx.api import obligation
import six
from six.moves.urllib.parse import urlsplit, urlunsplit, quote, quote_plus, unquote, unquote_plus, urlencode, urljoin, parse_qsl


def t(S, name, f, *a):
    try:
        r = f(*a)
    except Exception as e:
        r = 'EXC:' + type(e).__name__
    S.observe(name, r)
    S.check(True, 'reached ' + name)


def ops_str(S, s, u):
    return [
        ('len', lambda: len(s)), ('upper', lambda: s.upper()), ('lower', lambda: s.lower()),
        ('split', lambda: s.split(',')), ('split1', lambda: s.split(',', 1)), ('rsplit', lambda: s.rsplit('/', 1)),
        ('wsplit', lambda: s.split()), ('strip', lambda: s.strip()), ('strip/', lambda: s.strip('/')),
        ('lstrip', lambda: s.lstrip('/')), ('rstrip', lambda: s.rstrip('ab')),
        ('find', lambda: s.find('a')), ('rfind', lambda: s.rfind('/')), ('index', lambda: s.index(',')),
        ('sw', lambda: s.startswith('a/')), ('ew', lambda: s.endswith(('x', ','))),
        ('rep', lambda: s.replace('a', 'bc')), ('rep0', lambda: s.replace('a', '')), ('part', lambda: s.partition('/')),
        ('rpart', lambda: s.rpartition('/')), ('in', lambda: 'a,' in s), ('idx', lambda: s[1]), ('neg', lambda: s[-1]),
        ('sl', lambda: s[1:]), ('sl2', lambda: s[:-1]), ('rev', lambda: s[::-1]), ('add', lambda: s + u), ('join', lambda: s.join(['x', u, 'y'])),
        ('eq', lambda: s == u), ('lt', lambda: s < u), ('mul', lambda: s * 2), ('cnt', lambda: s.count('a')),
        ('isdigit', lambda: s.isdigit()), ('isalpha', lambda: s.isalpha()), ('fmt', lambda: '{0}-{1}'.format(s, u)),
        ('fmt2', lambda: '%s=%s' % (s, u)), ('repr', lambda: repr(s)), ('list', lambda: list(s)), ('enc', lambda: s.encode('utf-8')),
        ('title', lambda: s.zfill(4)), ('int', lambda: int(s)), ('float', lambda: float(s)), ('cmp', lambda: sorted([s, u, 'a'])),
        ('ascii', lambda: s.encode('ascii')), ('capital', lambda: s.capitalize()), ('center', lambda: s.ljust(5, '.')),
        ('expand', lambda: s.splitlines()), ('dict', lambda: {s: 1, u: 2}), ('set', lambda: len(set([s, u, 'a']))), ('idict', lambda: {'a': 1, 'b': 2}.get(s)),
    ]


N_STR = 48


@obligation('str', cases=[{'i': i} for i in range(N_STR)])
def st(S, i):
    s = S.str('s', 3, alphabet=[(9, 13), (32, 0x2ff), (0x4e00, 0x4e10), (0x1f600, 0x1f610)])
    u = S.str('u', 1)
    ops = ops_str(S, s, u)
    name, f = ops[i]
    t(S, name, f)


INTS = [
    ('str', lambda a, b: str(a)), ('fd', lambda a, b: a // b), ('mod', lambda a, b: a % b), ('dm', lambda a, b: divmod(a, 7)),
    ('neg', lambda a, b: -a), ('abs', lambda a, b: abs(a)), ('cmp', lambda a, b: a < b), ('fmt', lambda a, b: '%02d:%d' % (a, b)),
    ('fmt2', lambda a, b: '{0:04d}'.format(a)), ('float', lambda a, b: float(a)), ('div', lambda a, b: a / 8), ('and', lambda a, b: a & 15), ('max', lambda a, b: max(a, b)),
    ('range', lambda a, b: [1, 2, 3, 4][a]), ('sort', lambda a, b: sorted([a, b, 3])), ('json', lambda a, b: json.dumps([a, {'x': b}])), ('int', lambda a, b: int(float(a))),
    ('shift', lambda a, b: (a << 3) >> 1), ('isin', lambda a, b: a in [1, b]), ('bool', lambda a, b: bool(a)), ('hexf', lambda a, b: '{0}'.format(a)),
    ('set', lambda a, b: len({a, b, 1})), ('dct', lambda a, b: {a: 'x', 2: 'y'}.get(b)), ('truediv', lambda a, b: a / b),
]


@obligation('int', cases=[{'i': i} for i in range(len(INTS))])
def it(S, i):
    a = S.int('a', -50, 1000)
    b = S.int('b', -3, 12)
    name, f = INTS[i]
    t(S, name, f, a, b)


@obligation('bigfloat')
def bf(S):
    a = S.int('a', -2**64, 2**64)
    t(S, 'f', lambda: float(a))
    t(S, 'i', lambda: int(float(a)))


FL = [('int', lambda a: int(a)), ('cmp', lambda a: a > 1.5), ('cmpi', lambda a: a >= 2), ('str', lambda a: str(a)), ('neg', lambda a: -a), ('add', lambda a: a + 1), ('mul', lambda a: a * 2),
      ('js', lambda a: json.dumps(a)), ('div', lambda a: a / 4), ('fdiv', lambda a: a // 1), ('isint', lambda a: a.is_integer()), ('eq', lambda a: a == 3), ('round', lambda a: round(a))]


@obligation('float', cases=[{'i': i} for i in range(len(FL))])
def flo(S, i):
    a = S.float('a', 2, -5, 20)
    name, f = FL[i]
    t(S, name, f, a)


RES = [r'^(\d{4})-(\d{2})$', r'a*b+?', r'(?P<x>[^/]+)/(.*)', r'[a-c]|xy', r'^\s*$', r'(a|ab)(c|bcd)?(d*)', r'\{([^}]+)\}', r'\w+', r'[^\w.]', r'(?i)AbC', r'(\d+)(?:\.(\d+))?', r'\bfoo', r'x{2,3}$', r'~[01]?']


@obligation('re', cases=[{'i': i} for i in range(len(RES))])
def rr(S, i):
    s = S.str('s', 4, alphabet='ab/0d1.~{} x\n')
    p = re.compile(RES[i])
    def g(m):
        return None if m is None else [m.group(0), list(m.groups()), m.span()]
    t(S, 'match', lambda: g(p.match(s)))
    t(S, 'search', lambda: g(p.search(s)))
    if i % 3 == 0:
        t(S, 'findall', lambda: p.findall(s))
    elif i % 3 == 1:
        t(S, 'sub', lambda: p.sub('Z', s))
    else:
        t(S, 'split', lambda: p.split(s))


URLS = [
    ('urlsplit', lambda s: list(urlsplit('http' + s))), ('urlsplit0', lambda s: list(urlsplit(s))), ('quote', lambda s: quote(s)), ('quote_plus', lambda s: quote_plus(s)),
    ('unquote', lambda s: unquote(s)), ('unquote_plus', lambda s: unquote_plus(s)), ('urlencode', lambda s: urlencode([('a', s), (s, 'b')])), ('join', lambda s: urljoin('http://h/a/b', s)),
    ('unsplit', lambda s: urlunsplit(('http', 'h', s, '', ''))), ('qsl', lambda s: parse_qsl(s)),
]


@obligation('url', cases=[{'i': i} for i in range(len(URLS))], budget=30)
def url(S, i):
    s = S.str('s', 3, alphabet=':/?#&=%+ a1.\u00e9')
    name, f = URLS[i]
    t(S, name, f, s)


B = [
    ('dec', lambda b: b.decode('utf-8')), ('b64', lambda b: base64.b64encode(b)), ('b64u', lambda b: base64.urlsafe_b64encode(b)), ('lat', lambda b: b.decode('latin-1')),
    ('idx', lambda b: b[0]), ('sl', lambda b: b[1:]), ('eq', lambda b: b == b'ab'), ('split', lambda b: b.split(b',')), ('hex', lambda b: b.hex()), ('add', lambda b: b + b'x'), ('find', lambda b: b.find(b'a')),
]


@obligation('bytes', cases=[{'i': i} for i in range(len(B))])
def byt(S, i):
    b = S.bytes('b', 4)
    name, f = B[i]
    t(S, name, f, b)


@obligation('date')
def dat(S):
    y, m, d = S.int('y', 1, 9999), S.int('m', 0, 13), S.int('d', 0, 32)
    t(S, 'iso', lambda: datetime.date(y, m, d).isoformat())


@obligation('dtime')
def dtm(S):
    h, mi, us = S.int('h', 0, 23), S.int('mi', 0, 59), S.int('us', 0, 999999)
    t(S, 'iso', lambda: datetime.datetime(2020, 2, 28, h, mi, 5, us).isoformat())
    t(S, 'add', lambda: (datetime.datetime(2020, 2, 28, h, mi, 5, us) + datetime.timedelta(hours=h)).isoformat())


@obligation('ts')
def ts(S):
    x = S.int('x', 0, 2**32)
    t(S, 'd', lambda: datetime.date.fromtimestamp(x).isoformat())
    t(S, 'dt', lambda: datetime.datetime.utcfromtimestamp(x).isoformat())


@obligation('uuid')
def uu(S):
    b = S.bytes('b', 16, 16)
    t(S, 'u', lambda: str(uuid.UUID(bytes=b)))
    s = S.str('s', 2, 0, '0aFg-')
    t(S, 'v', lambda: str(uuid.UUID('12345678123456781234567812345' + s + '8')))


J = ['s', 'sp', 'loads', 'pretty', 'indent', 'cls', 'decoder', 'hooks']


class _Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, complex):
            return [o.real, 'c']
        return super(_Enc, self).default(o)


@obligation('json', cases=[{'k': k} for k in J])
def js(S, k):
    if k == 's':
        s = S.str('s', 2)
        t(S, 'd', lambda: json.dumps({'a': [s, None, True, 1.5], s: 1}, sort_keys=True))
    elif k == 'sp':
        i = S.int('i', -100, 10**7)
        b = S.bool('b')
        t(S, 'd', lambda: json.dumps({'a': [i, b]}, separators=(',', ':')))
    elif k == 'loads':
        s = S.str('s', 3, alphabet='[]{}":,1-.etru \\n')
        t(S, 'l', lambda: json.loads(s))
    elif k == 'indent':
        i = S.int('i', -9, 9)
        s = S.str('s', 1, alphabet=[(0, 300)])
        t(S, 'd', lambda: json.dumps({'a': [i, {}, {'b': [[], 2]}], 's': s}, indent=2, ensure_ascii=False))
        t(S, 'e', lambda: json.dumps([i], indent=0))
    elif k == 'cls':
        i = S.int('i', -9, 9)
        t(S, 'd', lambda: json.dumps([1j, i], cls=_Enc))
        t(S, 'e', lambda: _Enc(sort_keys=True).encode({'b': i, 'a': [2j]}))
        t(S, 'f', lambda: ''.join(_Enc(separators=(',', ':')).iterencode({'b': i, 'a': 2})))
        t(S, 'g', lambda: json.dumps([set(), i], default=lambda o: 'X%d' % i))
        t(S, 'h', lambda: json.dumps([set(), i]))
    elif k == 'decoder':
        s = S.str('s', 2, alphabet='[]"1 a')
        t(S, 'd', lambda: json.JSONDecoder().decode(s))
        t(S, 'e', lambda: json.JSONDecoder().decode(b'1'))
    elif k == 'hooks':
        s = S.str('s', 1, alphabet='ab')
        t(S, 'd', lambda: json.loads('{"a": 1, "' + s + '": {"c": 2}}', object_pairs_hook=lambda ps: [list(x) for x in ps]))
        t(S, 'e', lambda: json.loads('{"a": 1, "' + s + '": {}}', object_hook=lambda d: sorted(d.items())))
    else:
        s = S.str('s', 2, alphabet=[(0, 300)])
        t(S, 'd', lambda: json.loads(json.dumps([s, 'x'])))


Point = collections.namedtuple('Point', 'x y')


class Slots(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Slots) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __contains__(self, c):
        return c in self.v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]

    def __lt__(self, o):
        return self.v < o.v


@contextlib.contextmanager
def ctx(log, s):
    log.append(s)
    try:
        yield s + '!'
    except KeyError as e:
        log.append('key')
    finally:
        log.append('end')


def with_(s):
    log = []
    with ctx(log, s) as x:
        log.append(x)
        {}[s]
    with contextlib.suppress(ValueError):
        log.append(int(s))
    return log


def gen_send(s):
    def g():
        got = yield 1
        while True:
            got = yield got + s
    i = g()
    next(i)
    return [i.send('a'), i.send(s)]


def walrus(s):
    if (n := len(s)) > 1 and (h := s[0]) != 'b':
        return [n, h]
    return n


def nonlocal_(s):
    n = 0

    def inc(c):
        nonlocal n
        n += c == 'a'
        return n
    return [inc(c) for c in s], n


def unpack(s):
    a, *b = list(s) + ['z']
    (c, d), e = (s, 1), 2
    f = [*s, *b]
    g = {**{'k': s}, 'l': 1}
    h, = [s]
    return a, b, c, d, e, f, g, h


def loop_else(s):
    for i, c in enumerate(s):
        if c == '/':
            break
    else:
        return 'none'
    return i


def trys(s):
    r = []
    try:
        r.append({'a': 1}[s])
    except (KeyError, ValueError):
        r.append('k')
    else:
        r.append('else')
    finally:
        r.append('f')
    return r


def sort_key(s, u):
    return sorted([s, u, 'ab', ''], key=lambda x: (len(x), x), reverse=True)


def slices(s):
    l = list(s) + [1, 2, 3]
    l[1:2] = ['x', 'y']
    del l[0]
    l[-1:] = []
    return l, l[::2], l[::-1]


def assertions(s):
    try:
        assert s == 'a', 'no'
    except AssertionError as e:
        return str(e)


def lru(s):
    @functools.lru_cache(maxsize=None)
    def f(x):
        return x + 'q'
    return f(s), f(s)


def bytearr(b):
    a = bytearray()
    a.extend(b)
    a += b'x'
    return bytes(a)


PY = [
    ('chain', lambda s, u, i: list(itertools.chain([s], [u, 'x'], s))),
    ('chainfi', lambda s, u, i: list(itertools.chain.from_iterable([s, u]))),
    ('groupby', lambda s, u, i: [(k, len(list(g))) for k, g in itertools.groupby(sorted(s))]),
    ('takewhile', lambda s, u, i: list(itertools.takewhile(lambda c: c != '/', s))),
    ('dropwhile', lambda s, u, i: list(itertools.dropwhile(lambda c: c != '/', s))),
    ('islice', lambda s, u, i: list(itertools.islice(s, 1, None))),
    ('product', lambda s, u, i: [''.join(x) for x in itertools.product(s, 'xy')]),
    ('starmap', lambda s, u, i: list(itertools.starmap(operator.add, [(s, u), (u, s)]))),
    ('ziplong', lambda s, u, i: list(itertools.zip_longest(s, u, fillvalue='-'))),
    ('accum', lambda s, u, i: list(itertools.accumulate(s))),
    ('count', lambda s, u, i: list(zip(itertools.count(1), s))),
    ('filterfalse', lambda s, u, i: list(itertools.filterfalse(lambda c: c == 'a', s))),
    ('compress', lambda s, u, i: list(itertools.compress(s, [1, 0, 1]))),
    ('odict', lambda s, u, i: list(collections.OrderedDict([(s, 1), (u, 2), ('a', 3)]).items())),
    ('odictmove', lambda s, u, i: (lambda d: (d.move_to_end('b'), d.popitem(last=False), list(d)))(collections.OrderedDict([('b', 1), (s, 2)]))),
    ('ddict', lambda s, u, i: (lambda d: ([d[c].append(n) for n, c in enumerate(s)], sorted(d.items())))(collections.defaultdict(list))),
    ('ddictint', lambda s, u, i: (lambda d: ([d.__setitem__(c, d[c] + 1) for c in s], sorted(d.items())))(collections.defaultdict(int))),
    ('counter', lambda s, u, i: sorted(collections.Counter(s).items())),
    ('deque', lambda s, u, i: (lambda d: (d.append(u), d.appendleft('q'), d.popleft(), list(d)))(collections.deque(s))),
    ('chainmap', lambda s, u, i: [collections.ChainMap({'a': 1}, {'b': 2}).get(s), s in collections.ChainMap({'a': 1}, {'b': 2})]),
    ('ntuple', lambda s, u, i: list(Point(s, u)._replace(x='k')) + [Point(s, u) == (s, 'a'), Point(x=s, y=1).x]),
    ('slots', lambda s, u, i: [Slots(s) == Slots(u), Slots(s) in [Slots('a')], 'a' in Slots(s), len(Slots(s)), bool(Slots(s)), {Slots('a'): 1}.get(Slots(s)), Slots(s) < Slots(u), [c for c in Slots(s)]]),
    ('reduce', lambda s, u, i: functools.reduce(lambda a, b: b + a, s, '')),
    ('partial', lambda s, u, i: functools.partial('{0}-{x}'.format, s)(x=u)),
    ('lru', lambda s, u, i: lru(s)),
    ('itemgetter', lambda s, u, i: [operator.itemgetter(0)([s]), operator.itemgetter('a', 'b')({'a': s, 'b': u}), operator.attrgetter('x')(Point(s, 1)), operator.methodcaller('upper')(s)]),
    ('ops', lambda s, u, i: [operator.eq(s, u), operator.lt(s, 'a'), operator.contains(s, 'a'), operator.add(s, u), operator.not_(s), operator.truth(s), operator.ne(s, 'a'), operator.is_(s, None)]),
    ('translate', lambda s, u, i: s.translate({97: 'xy', 47: None, 49: 50})),
    ('maketrans', lambda s, u, i: s.translate(str.maketrans('a/', 'b|', '1'))),
    ('fmap', lambda s, u, i: '{a}{b}'.format_map({'a': s, 'b': u})),
    ('prefix', lambda s, u, i: [s.removeprefix('a'), s.removesuffix('/')]),
    ('casefold', lambda s, u, i: s.casefold()),
    ('swap', lambda s, u, i: [s.swapcase(), s.isupper(), s.islower(), s.isspace(), s.isalnum(), s.isdecimal(), s.isnumeric(), s.isidentifier(), s.isprintable()]),
    ('just', lambda s, u, i: [s.rjust(4), s.center(5, '*'), s.expandtabs()]),
    ('cmpchain', lambda s, u, i: ['a' <= s < 'c', 0 <= i < 5, s == u == 'a']),
    ('ternary', lambda s, u, i: 'x' if s and not u else (s or 'none')),
    ('anyall', lambda s, u, i: [any(c == 'a' for c in s), all(c != 'a' for c in s), any(map(str.isdigit, s))]),
    ('summax', lambda s, u, i: [sum(ord(c) for c in s), max([i, 3]), min(i, 3, key=lambda x: -x), max(s, default='-'), sum([[i], [1]], [])]),
    ('sortkey', lambda s, u, i: sort_key(s, u)),
    ('slices', lambda s, u, i: slices(s)),
    ('listops', lambda s, u, i: (lambda l: (l.insert(0, u), l.remove('a') if 'a' in l else None, l.reverse(), l.count('/'), l))(list(s))),
    ('index', lambda s, u, i: [['a', 'b', '/'].index(c) if c in 'ab/' else -1 for c in s]),
    ('setops', lambda s, u, i: [sorted(set(s) - set(u)), sorted(set(s) | {'z'}), sorted(set(s) & set('ab')), sorted(set(s) ^ set('a')), set(s) <= set('ab/'), set(s).isdisjoint('a'), frozenset(s) == frozenset(u)]),
    ('setmut', lambda s, u, i: (lambda d: (d.add(u), d.discard('a'), d.update('b'), sorted(d)))(set(s))),
    ('dictops', lambda s, u, i: (lambda d: (d.setdefault(s, 7), d.pop(u, None), d.update({s: 1}), 'a' in d, sorted(d.items()), len(d)))({'a': 0})),
    ('dictcomp', lambda s, u, i: sorted({c: n for n, c in enumerate(s)}.items())),
    ('dictor', lambda s, u, i: sorted(({'a': 1} | {s: 2}).items())),
    ('dictview', lambda s, u, i: [sorted({s: 1, 'b': 2}.keys() - {'a'}), sorted({s: 1}.keys() & {'a', 'b'}), (s, 1) in {'a': 1}.items(), 1 in {s: i}.values()]),
    ('dicteq', lambda s, u, i: [{s: 1} == {'a': 1}, {s: i} != {u: i}, dict([(s, 1)]) == dict(a=1), dict(zip([s], [1]))]),
    ('fromkeys', lambda s, u, i: sorted(dict.fromkeys(s, 0).items())),
    ('popitem', lambda s, u, i: {s: 1}.popitem()),
    ('copy', lambda s, u, i: (lambda a: (lambda b: (b['k'].append(u), a, b))(copy.deepcopy(a)))({'k': [s]})),
    ('copy1', lambda s, u, i: (lambda a: (lambda b: (b['k'].append(u), a, b))(copy.copy(a)))({'k': [s]})),
    ('iter', lambda s, u, i: [next(iter(s), None), list(reversed(s)), list(zip(*[(s, 1), (u, 2)]))]),
    ('iter2', lambda s, u, i: list(iter(iter(s).__next__, '/')) if '/' in s else None),
    ('with', lambda s, u, i: with_(s)), ('send', lambda s, u, i: gen_send(s)), ('walrus', lambda s, u, i: walrus(s)), ('nonlocal', lambda s, u, i: nonlocal_(s)),
    ('unpack', lambda s, u, i: unpack(s)), ('loopelse', lambda s, u, i: loop_else(s)), ('trys', lambda s, u, i: trys(s)), ('assert', lambda s, u, i: assertions(s)),
    ('template', lambda s, u, i: string.Template('$a-${b}').substitute(a=s, b=u)),
    ('fstr', lambda s, u, i: [f'{s}{i:03d}', f'{s!r}', f'{s:>4}', f'{i + 1}={u}', f'{{}}']),
    ('pct', lambda s, u, i: ['%(a)s %(b)d' % {'a': s, 'b': i}, '%r' % s, '%5s|' % s, '%-3d|' % i, '%%', '%x' % i, '%s' % (s,), '%s' % [s]]),
    ('fmtn', lambda s, u, i: ['{:>5}'.format(s), '{0!r:}'.format(s), '{0[0]}'.format([s]), '{p.x}'.format(p=Point(s, 1)), '{:,}'.format(i), '{:05}'.format(i), '{:+d}'.format(i), '{:x}'.format(i), '{:.2f}'.format(1.5), '{{{}}}'.format(s), '{:{w}}'.format(s, w=4)]),
    ('isinst', lambda s, u, i: [isinstance(s, str), isinstance(i, (int, float)), isinstance(i, bool), type(s) is str, type(i) == int, issubclass(type(s), str), callable(s), s.__class__ is str, type(s).__name__]),
    ('getattr', lambda s, u, i: [getattr(Point(s, 1), 'x'), getattr(s, 'nope', 5), hasattr(s, 'upper'), getattr(s, 'upper')()]),
    ('strio', lambda s, u, i: (lambda f: (f.write(s), f.write(u), f.getvalue()))(io.StringIO())),
    ('strio2', lambda s, u, i: [l for l in io.StringIO('x\n' + s)]),
    ('osp', lambda s, u, i: [os.path.join('/x', s), os.path.splitext(s), os.path.basename(s), os.path.dirname(s), os.path.normpath('/' + s), os.path.isabs(s)]),
    ('bisect', lambda s, u, i: [bisect.bisect_left([1, 3, 5], i), bisect.bisect([1, 3, 5], i)]),
    ('ints', lambda s, u, i: [int('%d' % i), i.bit_length(), hex(i), bin(i), round(i / 2), i ** 2, pow(i, 2), -i // 2, ~i, i ^ 3, i | 1, float(i).is_integer(), i.to_bytes(2, 'big'), chr(i + 65), divmod(i, 3)]),
    ('boolarith', lambda s, u, i: [(s == 'a') + 1, sum([s == 'a', u == 'b']), (i > 1) & (i < 3), not s, bool(i) or s, (s == u) is True, [10, 20][s == 'a']]),
    ('strcmp', lambda s, u, i: [max(s, u), min([s, u, 'b']), s > u, s * (i % 3), u in s, s.find(u), s.count('a', 1), s.startswith('a', 1), s.index('a') if 'a' in s else None]),
    ('multi', lambda s, u, i: [s.split('a', maxsplit=1), s.rsplit(None, 1), s.replace('a', 'b', 1), s.splitlines(True), s.rpartition('a'), ''.join(reversed(s)), s.join([]), '/'.join(c for c in s if c != 'a')]),
    ('resub', lambda s, u, i: [re.sub('[a/]', lambda m: '<' + m.group() + '>', s), re.sub('a', r'\g<0>\g<0>', s), re.subn('a', 'b', s), re.sub('(a)(b)?', r'\1', s), re.escape(s)]),
    ('refind', lambda s, u, i: [[m.start() for m in re.finditer('a', s)], re.findall('(a)|(/)', s), re.split('([a/])', s), bool(re.fullmatch('[a-c]+', s)), (re.match('(?P<n>a*)', s) or {}).groupdict(), re.match('a*', s).end()]),
    ('encode', lambda s, u, i: [s.encode(), s.encode('utf-8', 'replace'), s.encode('latin-1', 'ignore'), bytes(s, 'utf-8'), str(s.encode('utf-8'), 'utf-8'), s.encode('ascii', 'xmlcharrefreplace')]),
    ('mapfilter', lambda s, u, i: [list(map(ord, s)), list(filter(None, [s, u, ''])), list(map(lambda a, b: a + b, s, u)), [(a, b) for a in s for b in u if a != b]]),
    ('cond', lambda s, u, i: {'a': 'A', '/': 'S'}.get(s[:1], s) if s else None),
    ('enumstart', lambda s, u, i: [(n, c) for n, c in enumerate(s, 1)]),
    ('excs', lambda s, u, i: [type(e).__name__ for e in [_exc(lambda: int(s)), _exc(lambda: [1][i]), _exc(lambda: s.index('zz')), _exc(lambda: s + 1), _exc(lambda: {}[s]), _exc(lambda: s.nope), _exc(lambda: 1 // (i - 2)), _exc(lambda: next(iter([])))]]),
    ('starargs', lambda s, u, i: (lambda *a, k=1, **kw: [a, k, sorted(kw.items())])(*s, **{'k': u, 'z': i})),
    ('globals', lambda s, u, i: [vars(Point(s, u)) if hasattr(Point(s, u), '__dict__') else 0, Point(s, u)._asdict() == {'x': s, 'y': u}]),
    ('hash', lambda s, u, i: [hash(s) == hash(s), id(s) == id(s), len({(s, 1), ('a', 1)}), (s, i) == ('a', 1), {(s, i): 1}.get(('a', 2))]),
    ('tuplecmp', lambda s, u, i: [(s, i) < ('b', 1), [s, i] < ['a', 3], (i, s) >= (1, 'a'), (s,) + (u,), (s,) * 2, s in (u, 'a')]),
]

PYB = [
    ('ops', lambda b: [b.startswith(b'a'), b.endswith(b'b'), b.upper(), b.strip(), b.replace(b'a', b'bc'), b.partition(b','), b.rsplit(b',', 1), b.count(b'a'), b.index(b'a') if b'a' in b else -1]),
    ('join', lambda b: [b','.join([b, b'x']), b * 2, b[::-1], b[:1], list(b), bytes([1, 2]) + b, b == bytearray(b'a'), b < b'b', b'a' in b, 97 in b]),
    ('conv', lambda b: [bytearr(b), int.from_bytes(b, 'big'), bytes(b), len(b), bool(b), isinstance(b, bytes), b.hex(), [x for x in b], sum(b)]),
    ('bio', lambda b: (lambda f: (f.write(b), f.write(b'x'), f.getvalue(), f.seek(0), f.read(1), f.read(), f.tell()))(io.BytesIO())),
    ('bio2', lambda b: [l for l in io.BytesIO(b'x\n' + b)]),
    ('b64', lambda b: [base64.b64decode(base64.b64encode(b)), base64.urlsafe_b64decode(base64.urlsafe_b64encode(b)), base64.b64encode(b, b'-_'), base64.encodebytes(b), base64.standard_b64encode(b), base64.b16encode(b)]),
    ('dec', lambda b: [b.decode('utf-8', 'replace'), b.decode('ascii', 'ignore'), str(b, 'latin-1'), b.decode('latin-1').encode('latin-1') == b]),
    ('fmt', lambda b: [b'%s-%d' % (b, 3), repr(b), str(b), '{0}'.format(b)]),
    ('re', lambda b: [re.findall(b'a', b), re.sub(b'a', b'b', b), bool(re.match(b'^[ab]+$', b))]),
    ('mv', lambda b: [bytes(memoryview(b)[1:]), binascii_(b)]),
]


def binascii_(b):
    import binascii
    return [binascii.hexlify(b), binascii.unhexlify(binascii.hexlify(b)), binascii.b2a_base64(b)]


def _exc(f):
    try:
        return f()
    except Exception as e:
        return e


@obligation('py', cases=[{'k': k} for k, _ in PY])
def py(S, k):
    s = S.str('s', 3, alphabet='ab/1 \u00e9')
    u = S.str('u', 1, alphabet='ab')
    i = S.int('i', 0, 5)
    t(S, k, lambda: dict(PY)[k](s, u, i))


@obligation('pyb', cases=[{'k': k} for k, _ in PYB])
def pyb(S, k):
    b = S.bytes('b', 2)
    t(S, k, lambda: dict(PYB)[k](b))
