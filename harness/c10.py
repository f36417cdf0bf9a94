"""C10 path arguments come back"""
from urllib.parse import unquote
from symx.api import obligation
from harness.util import op_app

STR = {'type': 'string'}


def parts(S, req, path, base='/b'):
    """the segments of the prepared path, checked against the URL"""
    url = req.url
    S.check(url.startswith('http://h.x' + base + '/'), 'the URL has another beginning')
    S.check(S.same(url[len('http://h.x' + base):], req.path), 'URL and path differ')
    S.observe('path', req.path)
    segs = req.path.split('/')
    S.check(len(segs) == len(path.split('/')), 'the path has another number of segments')
    for c in '?#\\ ':
        S.check(S.not_(S.contains(req.path, c)), 'a reserved character is not encoded')
    return segs


def request(path, args, defs=None):
    ps = [dict((defs or {}).get(k, STR), name=k, required=True, **{'in': 'path'}) for k in args]
    req, _ = op_app(ps, path).op['theOp'](**args)
    req.prepare()
    return req


@obligation('value', bounds='every text of 1 Unicode character, of up to 3 ASCII characters (0..127), in five templates',
            cases=[dict(path=p, n=n, top=t) for p in ('/p/{arg}', '/{arg}/x') for n, t in ((0, 127), (1, 0x10ffff), (2, 127), (3, 127))] +
            [dict(path=p, n=1, top=127) for p in ('/{arg}', '/a/pre-{arg}.json', '/p/{arg}/')],
            thorough=[dict(path='/p/{arg}/x', n=2, top=0x10ffff), dict(path='/p/{arg}', n=3, top=0x7ff), dict(path='/p/{arg}', n=5, top=127)], budget=60)
def value(S, path, n, top):
    t = S.str('t', n, n, [(0, min(top, 0xd7ff))] + ([(0xe000, top)] if top > 0xe000 else []))
    segs = parts(S, request(path, {'arg': t}), path)
    for s, want in zip(segs, path.split('/')):
        if '{' in want:
            pre, post = want.split('{arg}')
            S.check(s.startswith(pre) and s.endswith(post), 'the fixed part of the segment is changed')
            s = s[len(pre):len(s) - len(post)]
            S.check(S.same(unquote(s), t), 'the segment decodes to another text')
        else:
            S.check(S.same(s, want), 'a fixed segment is changed')


@obligation('two', bounds='two and three path parameters, values from texts that look like placeholders, escapes or separators',
            cases=[dict(n=n, alphabet=a) for n in (2, 3) for a in ('{}ab', '%20+', '/?#. ')])
def two(S, n, alphabet):
    names = ['a', 'ab', 'b'][:n]
    path = '/' + '/m/'.join('{%s}' % x for x in names)
    args = dict((x, S.str(x, 3 if x == 'a' else 1, 0, alphabet)) for x in names)
    segs = parts(S, request(path, args), path)
    for i, x in enumerate(names):
        S.check(S.same(unquote(segs[1 + 2 * i]), args[x]), 'the segment decodes to another text')
    for i in range(n - 1):
        S.check(S.same(segs[2 + 2 * i], 'm'), 'a fixed segment is changed')


@obligation('names', bounds='parameter names with the characters "." "-" "_" ":" "!" "[" "]" " ", digits, non-ASCII; values up to 1 ASCII character',
            cases=[dict(name=n) for n in ('a.b', 'a-b', 'x_y', 'a:b', 'a!r', 'a[0]', 'a[]', '0', 'a b', 'a:>3', '\u00e4', 'self.x', 'path')])
def names(S, name):
    t = S.str('t', 1, 0, [(0, 127)])
    path = '/p/{%s}/q' % name
    segs = parts(S, request(path, {name: t}), path)
    S.check(S.same(unquote(segs[2]), t), 'the segment decodes to another text')
    S.check(S.all(S.same(segs[1], 'p'), S.same(segs[3], 'q')), 'a fixed segment is changed')


@obligation('types', bounds='integers, booleans, dates (fixed), uuids (fixed), lists of up to two texts as csv, ssv and pipes',
            cases=[dict(kind=k) for k in ('integer', 'boolean', 'date', 'uuid', 'csv', 'ssv', 'tsv', 'pipes')])
def types(S, kind):
    sep = {'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}.get(kind)
    if sep:
        v = [S.str('v%d' % i, 1, 0, [(0, 127)]) for i in range(S.choice('n', [1, 2]))]
        d = {'type': 'array', 'items': STR, 'collectionFormat': kind}
        want = sep.join(v)
    elif kind == 'integer':
        v = S.int('v', -999, 999)
        d, want = {'type': 'integer'}, str(v)
    elif kind == 'boolean':
        v = S.choice('v', [False, True])
        d, want = {'type': 'boolean'}, str(v)
    else:
        v = want = {'date': '2020-02-29', 'uuid': '12345678-1234-5678-1234-567812345678'}[kind]
        d = {'type': 'string', 'format': kind}
    segs = parts(S, request('/p/{arg}', {'arg': v}, {'arg': d}), '/p/{arg}')
    got = unquote(segs[2])
    if kind == 'boolean':
        S.check(S.same(got.lower(), want.lower()), 'the segment decodes to another text')
    else:
        S.check(S.same(got, want), 'the segment decodes to another text')


@obligation('base', bounds='base paths absent, "/", "/b", "/b/c", "/b/"; host absent or given; unsubstituted templates; path arguments up to 1 ASCII character')
def base(S):
    from harness.util import app, op_doc
    d = op_doc([dict(STR, name='arg', required=True, **{'in': 'path'})], '/p/{arg}')
    b = S.choice('base', [None, '/', '/b', '/b/c'])
    h = S.choice('host', [None, 'h.x:8080'])
    for k, x in (('basePath', b), ('host', h)):
        if x is None:
            del d[k]
        else:
            d[k] = x
    t = S.str('t', 1, 0, [(0, 127)])
    req, _ = app(d).op['theOp'](arg=t)
    S.check(req.path == '/p/{arg}', 'the template is changed before preparation')
    req.prepare()
    S.check(S.same(req.url, 'http://' + (h or 'h.x') + (b or '') + req.path), 'URL and path differ')
