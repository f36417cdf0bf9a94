"""C34 clients transmit exactly what was prepared and apply what came back"""
import builtins
import io
from urllib.parse import parse_qsl
from symx.api import obligation
from harness import stubs
from harness.util import app, op_doc
from harness.mime import parts_of, expect
from pyswagger import Security
from pyswagger.contrib.client.requests import Client
from pyswagger.contrib.client.flask import FlaskTestClient
from pyswagger.contrib.client.tornado import TornadoClient

STUBS = 'the HTTP libraries (requests, werkzeug/flask, tornado) are replaced by stand-ins that record the request they are given'
KINDS = ['requests', 'flask', 'tornado']
ASCII = [(32, 126)]
DEFS = {'securityDefinitions': {'key': {'type': 'apiKey', 'in': 'header', 'name': 'X-Key'}, 'qkey': {'type': 'apiKey', 'in': 'query', 'name': 'k'}}}


def client(kind, auth=None):
    return {'requests': lambda: Client(auth), 'flask': lambda: FlaskTestClient(stubs.FlaskClient(), auth), 'tornado': lambda: TornadoClient(auth)}[kind]()


def operation(params, method='post', **k):
    return app(op_doc(params, path='/p/{id}' if any(p['name'] == 'id' for p in params) else '/p', method=method,
                      top=dict(DEFS, schemes=['http']), **k))


def p(name, where, typ='string', **k):
    return dict(k, name=name, type=typ, **{'in': where})


def headers_of(S, sent, want):
    """exactly these headers, besides Content-Type and Accept"""
    got = dict((k.lower(), v) for k, v in sent['headers'])
    S.check(len(got) == len(sent['headers']), 'a header is sent twice')
    S.check(S.same(got, dict((k.lower(), v) for k, v in want.items())), 'other headers are sent')


def one(S):
    S.check(len(stubs.SENT) == 1, 'not exactly one request is sent')
    return stubs.SENT[0]


@obligation('line', bounds='each client; path argument of 1 ASCII character, a query argument, list items and a header argument of up to 1 character each; a credential in header or query or none; URL options for host and scheme or none',
            cases=[dict(kind=k, extra=e) for k in KINDS for e in (None, 'netloc', 'scheme')], stubs=STUBS)
def line(S, kind, extra):
    method = 'post'
    sec = S.choice('sec', [None, 'key', 'qkey'])
    i, q, h = S.str('i', 1, 1, 'a/%?'), S.str('q', 1, 0, 'a&= '), S.str('h', 1, 0, ASCII)
    l = [S.str('l%d' % n, 1, 0, 'a,') for n in range(S.choice('n', [1, 2]))]
    a = operation([p('id', 'path', required=True), p('q', 'query'), p('h', 'header'),
                   p('l', 'query', 'array', items={'type': 'string'}, collectionFormat='multi')],
                  method=method, **({} if sec is None else {'security': [{sec: []}]}))
    auth = Security(a)
    if sec is not None:
        auth.update_with(sec, 'secret')
    opt = {None: None, 'netloc': {'url_netloc': 'other:81'}, 'scheme': {'url_scheme': 'https'}}[extra]
    copy = None if opt is None else dict(opt)
    stubs.reset(200, [], b'')
    client(kind, auth).request(a.op['theOp'](id=i, q=q, h=h, l=l), opt)
    s = one(S)
    S.check(s['method'] == method.upper(), 'another method is used')
    enc = {'/': '%2F', '%': '%25', '?': '%3F'}
    base = {None: 'http://h.x', 'netloc': 'http://other:81', 'scheme': 'https://h.x'}[extra]
    S.check(S.same(s['url'], base + '/b/p/' + enc.get(i, i)), 'the URL is another one')
    query = [('q', q)] + [('l', x) for x in l] + ([('k', 'secret')] if sec == 'qkey' else [])
    S.check(len(s['query']) == len(query), 'query pairs are lost or invented')
    for n in ('q', 'l', 'k'):
        S.check(S.same([v for k, v in s['query'] if k == n], [v for k, v in query if k == n]), 'another query is sent')
    want = {'h': h}
    if sec == 'key':
        want['X-Key'] = 'secret'
    headers_of(S, s, want)
    S.check(s['body'] is None and not s['form'] and not s['files'], 'a body is sent')
    S.check(opt == copy, "the caller's options are changed")


@obligation('method', bounds='each client; all methods, http and https', cases=[dict(kind=k) for k in KINDS], stubs=STUBS)
def method(S, kind):
    m = S.choice('method', ['get', 'put', 'post', 'delete', 'options', 'head', 'patch'])
    schemes = S.choice('schemes', [['http'], ['https'], ['ws', 'https', 'http'], ['ws']])
    q = S.str('q', 1, 0, ASCII)
    a = operation([p('q', 'query')], method=m, schemes=schemes)
    stubs.reset(200, [], b'')
    e, _ = S.fn_raises(Exception, lambda: client(kind).request(a.op['theOp'](q=q)))
    S.check((e is None) == (schemes != ['ws']), 'a scheme is refused' if e else 'an unsupported scheme is used')
    if e is not None:
        S.check(stubs.SENT == [], 'a refused request is sent')
        return
    s = one(S)
    S.check(s['method'] == m.upper(), 'another method is used')
    S.check(s['url'] == ('http' if schemes == ['http'] else 'http' if 'http' in schemes else 'https') + '://h.x/b/p', 'the URL is another one')
    S.check(S.same(s['query'], [('q', q)]), 'another query is sent')
    S.check(s['headers'] == [] and s['body'] is None and not s['form'] and not s['files'], 'something else is sent')


@obligation('headers', bounds='each client; up to 2 custom headers as list or mapping with names a, b and X, values of 1 character; joined or not; own header argument a',
            cases=[dict(kind=k, n=n) for k in KINDS for n in (0, 1, 2)], stubs=STUBS)
def headers(S, kind, n):
    a = operation([p('a', 'header')], 'get', produces=['application/json'])
    v = S.str('v', 1, 1, ASCII)
    pairs = [(S.choice('k%d' % i, ['a', 'b', 'X']), S.str('w%d' % i, 1, 1, ASCII)) for i in range(n)]
    join = S.choice('join', [False, True])
    as_map = S.choice('map', [False, True])
    h = dict(pairs) if as_map else list(pairs)
    pairs = list(h.items()) if as_map else pairs
    stubs.reset(200, [], b'')
    client(kind).request(a.op['theOp'](a=v), {'join_headers': True} if join else {}, h)
    s = one(S)
    got = {}
    for k, x in s['headers']:
        got.setdefault(k, []).append(x)
    want = {'a': [v], 'Accept': ['application/json']}
    for k, x in pairs:
        want.setdefault(k, []).append(x)
    S.check(sorted(got) == sorted(want), 'headers are lost or invented')
    for k, l in want.items():
        if join:
            S.check(S.same(got[k], [','.join(l)]), 'a header has another value')
        elif kind == 'requests':
            # one value per name, the one of the request goes first
            S.check(len(got[k]) == 1, 'a header is sent twice')
            S.check(S.same(got[k][0], l[0] if k in ('a', 'Accept') else l[-1]), 'a header has another value')
        else:
            S.check(S.same(got[k], l), 'a header has other values')
    S.check(S.same(list(h.items()) if as_map else h, pairs), "the caller's headers are changed")


@obligation('body', bounds='each client; a JSON object with an integer and a text of up to 2 characters, or a text/plain body; sent once or twice by the same pair of request and response',
            cases=[dict(kind=k, times=t) for k in KINDS for t in (1, 2)], stubs=STUBS)
def body(S, kind, times):
    plain = S.choice('plain', [False, True])
    t = S.str('t', 2, 0, [(32, 33), (35, 91), (93, 126)])
    n = S.int('n', -9, 9)
    schema = {'type': 'string'} if plain else {'type': 'object', 'properties': {'n': {'type': 'integer'}, 't': {'type': 'string'}}}
    a = operation([{'name': 'b', 'in': 'body', 'schema': schema}], consumes=['text/plain' if plain else 'application/json'])
    pair = a.op['theOp'](b=t if plain else {'n': n, 't': t})
    c = client(kind)
    for i in range(times):
        stubs.reset(200, [], b'')
        c.request(pair)
        s = one(S)
        S.check(s['url'] == 'http://h.x/b/p' and s['query'] == [] and not s['form'] and not s['files'], 'something else is sent')
        if plain:
            # the others do not distinguish an empty body from none
            S.check(S.same((s['body'] or b'') if kind != 'tornado' else s['body'], t.encode('ascii')), 'the body is another one')
        else:
            d = s['body'].decode('ascii')
            S.check(S.any(S.same(d, '{"n": %d, "t": "%s"}' % (n, t)), S.same(d, '{"t": "%s", "n": %d}' % (t, n))), 'the body is another one')
        headers_of(S, s, {'Content-Type': 'text/plain' if plain else 'application/json'})


@obligation('form', bounds='each client; a form of a text and a list of up to 2 texts of up to 1 character; sent once or twice',
            cases=[dict(kind=k, times=t) for k in KINDS for t in (1, 2)], stubs=STUBS)
def form(S, kind, times):
    a = operation([p('a', 'formData'), p('l', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi')])
    t = S.str('t', 1, 0, 'a&=+ ')
    l = [S.str('l%d' % i, 1, 0, 'b%') for i in range(S.choice('n', [1, 2]))]
    pair = a.op['theOp'](a=t, l=l)
    c = client(kind)
    for i in range(times):
        stubs.reset(200, [], b'')
        c.request(pair)
        s = one(S)
        got = s['form'] if s['body'] is None else parse_qsl(s['body'].decode('ascii'), True)
        S.check(S.same([v for k, v in got if k == 'a'], [t]), 'a field is lost or changed')
        S.check(S.same([v for k, v in got if k == 'l'], l), 'items are lost or changed')
        S.check(len(got) == 1 + len(l), 'fields are invented')
        headers_of(S, s, {'Content-Type': 'application/x-www-form-urlencoded'})


class Sent(object):
    """what tornado was given, for the multipart decoder"""
    def __init__(self, s):
        self.header = dict(s['headers'])
        self.data = s['body']


@obligation('files', bounds='each client; a text and a list of 2 texts of up to 1 character, one or two files (as parameter or list) with content of up to 2 bytes, given as stream or by file name, each with a media type of its own or none; with or without a credential and a header of the caller',
            cases=[dict(kind=k, n=n, headers=h) for k in KINDS for n, h in ((1, False), (2, False), (2, True))], stubs=STUBS + '; open() of the named file')
def files(S, kind, n, headers=False):
    listed = n == 2 and S.choice('listed', [False, True])
    ps = [p('a', 'formData'), p('l', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi')]
    ps += [p('f', 'formData', 'array', items={'type': 'file'}, collectionFormat='multi')] if listed else [p('f%d' % i, 'formData', 'file') for i in range(n)]
    more = [('X-Own', 'v')] if headers else None
    sec = more is not None
    a = operation(ps, consumes=['multipart/form-data'], **({'security': [{'key': []}]} if sec else {}))
    auth = Security(a)
    if sec:
        auth.update_with('key', 'secret')
    own = [] if more is None else [('X-Key', 'secret'), ('X-Own', 'v')]
    t = S.str('t', 1, 0, ASCII) if n == 1 else 'x'
    l = [S.str('l%d' % i, 1, 0, 'ab') for i in range(2)] if n == 1 else ['y', '']
    real, table, fs, want = builtins.open, {}, [], []
    for i in range(n):
        b = S.bytes('b%d' % i, 2, 0 if n == 1 else 2) if not headers else b'xy'
        name = '/no/such/dir/%d.txt' % i
        ct = S.choice('ct%d' % i, [None, 'image/png'])
        given = S.choice('named%d' % i, [False, True])
        if not given and n == 1 and S.choice('anonymous', [False, True]):
            name = ''
        f = dict(filename=name)
        if ct is not None:
            f['header'] = {'Content-Type': ct}
        if given:
            table[name] = b
        else:
            f['data'] = io.BytesIO(b)
        fs.append(f)
        want.append(('f' if listed else 'f%d' % i, name, ct, b))

    def fake(name, *a, **k):
        return io.BytesIO(table[name]) if name in table else real(name, *a, **k)
    S.patch(builtins, 'open', fake)
    args = {'f': fs} if listed else dict(('f%d' % i, fs[i]) for i in range(n))
    stubs.reset(200, [], b'')
    client(kind, auth).request(a.op['theOp'](a=t, l=l, **args), None, more)
    s = one(S)
    if kind == 'tornado':
        parts = [('a', None, {}, t.encode('ascii'))] + [('l', None, {}, x.encode('ascii')) for x in l]
        parts += [(k, name, {} if ct is None else {b'content-type': ct}, b) for k, name, ct, b in want]
        S.check(sorted(k for k, _ in s['headers']) == ['Content-Type'] + [k for k, _ in own], 'other headers are sent')
        expect(S, parts_of(S, Sent(s)), parts)
        return
    S.check(s['body'] is None, 'another body is sent')
    S.check(sorted(s['headers']) == own, 'other headers are sent')
    S.check(S.same([v for k, v in s['form'] if k == 'a'], [t]), 'a field is lost or changed')
    S.check(S.same([v for k, v in s['form'] if k == 'l'], l), 'items are lost or changed')
    S.check(len(s['form']) == 3 and len(s['files']) == n, 'fields or files are invented')
    if listed:
        S.check([f[1] for f in s['files']] == [w[1] for w in want], 'the files are in another order')
    for w in want:
        got = [f for f in s['files'] if f[0] == w[0] and f[1] == w[1]]
        S.check(len(got) == 1, 'a file is lost or has another name')
        S.check(got[0][2] == w[2], 'a file has another media type')
        S.check(S.same(got[0][3], w[3]), 'a file has another content')


@obligation('response', bounds='each client; every status code 0..999 with definitions for 200, 404 and default; media type application/json, text/plain, an unknown one or none; body of up to 2 characters; up to 2 further headers that may be repeated; first and second use of the same response',
            cases=[dict(kind=k, used=u) for k in KINDS for u in (False, True)], stubs=STUBS)
def response(S, kind, used):
    st = S.int('status', 0, 999)
    t = S.str('t', 2, 0, [(97, 122)])
    ct = S.choice('ct', [None, 'application/json', 'text/plain', 'image/png'])
    more = [(S.choice('k%d' % i, ['X', 'Y']), S.str('v%d' % i, 1, 1, ASCII)) for i in range(S.choice('n', [0, 1, 2]))]
    d = {'description': 'd'}
    empty = ct is None and not more and S.choice('empty', [False, True])
    S.assume(not empty or not S.any(S.same(st, 200), S.same(st, 404)))
    a = operation([], 'get', responses={'200': dict(d, schema={'type': 'string'}), '404': dict(d, schema={'type': 'string', 'enum': ['"nf"', 'nf']}), 'default': d})
    pair = a.op['theOp']()
    c = client(kind)
    if used:
        stubs.reset(200, [('Old', 'x'), ('Content-Type', 'application/json')], b'"old"')
        c.request(pair)
    raw = ('"' + t + '"').encode('ascii') if not empty else b''
    stubs.reset(st, ([] if ct is None else [('Content-Type', ct)]) + more, raw)
    decoded = S.any(S.same(st, 200), S.same(st, 404))
    known = ('tornado-content-type', kind == 'tornado' and ct in ('text/plain', 'image/png'))
    want = '"' + t + '"' if ct == 'text/plain' else t
    ok = S.any(S.not_(decoded), S.all(ct != 'image/png', S.any(S.not_(S.same(st, 404)), S.same(want, 'nf'), S.same(want, '"nf"'))))
    e, resp = S.fn_raises(Exception, lambda: c.request(pair))
    S.check(S.iff(e is None, ok), 'the response is accepted' if e is None else 'the response is refused', known=known)
    if e is not None:
        return
    S.check(resp is pair[1], 'another response is returned')
    S.check(S.same(resp.status, st), 'the status is another one')
    S.check(S.same(resp.raw, raw), 'the body is another one')
    if decoded:
        S.check(S.same(resp.data, want), 'the body is decoded to something else', known=known)
    else:
        S.check(resp.data is None, 'data of an earlier response is left')
    want = {} if ct is None else {'Content-Type': [ct]}
    for k, v in more:
        want.setdefault(k, []).append(v)
    if kind == 'requests':
        want = dict((k, [', '.join(v)]) for k, v in want.items())
    S.check(sorted(resp.header) == sorted(want), 'headers are lost or invented')
    for k, v in want.items():
        S.check(S.same(resp.header[k], v), 'a header has other values')


FAILURES = ['send', 'answer', 'status', 'scheme', 'accept', 'header']


@obligation('failure', bounds='each client; one or two sendings fail (the library raises, the body or a header of the response is refused, no common scheme, Accept not declared) before the same pair and client are used (again): a GET with query, header, path argument and credentials, or a form, or a JSON body, texts of 1 character; against the same sent once',
            cases=[dict(kind=k, how=h) for k in KINDS for h in FAILURES], stubs=STUBS)
def failure(S, kind, how):
    what = S.choice('what', ['query', 'form', 'body'])
    t, n = S.str('t', 1, 1, 'ab'), S.int('n', 0, 9)
    ps = [p('id', 'path', 'integer', required=True), p('h', 'header'), p('q', 'query', 'array', items={'type': 'string'}, collectionFormat='multi')]
    ps += {'query': [], 'form': [p('f', 'formData')], 'body': [{'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'t': {'type': 'string'}}}}]}[what]
    args = dict({'id': n, 'h': t, 'q': [t, 'x']}, **{'query': {}, 'form': {'f': t}, 'body': {'b': {'t': t}}}[what])
    sec = S.choice('sec', ['key', 'qkey'])
    a = operation(ps, security=[{sec: []}], produces=['application/json', 'x/y'],
                  responses={'200': {'description': 'd', 'schema': {'type': 'string'}, 'headers': {'N': {'type': 'integer', 'maximum': 5}}}, '404': {'description': 'd', 'schema': {'type': 'integer'}}})
    auth = Security(a)
    auth.update_with(sec, 'secret')
    opt, more = {'url_netloc': 'other:81'}, {'X-More': t}
    ok = (200, [('Content-Type', 'application/json'), ('N', '3')], ('"%s"' % t).encode('ascii'))

    def sent(c, pair):
        stubs.reset(*ok)
        r = c.request(pair, opt, more)
        s = one(S)
        return [s[k] for k in ('method', 'url', 'query', 'body', 'form', 'files')] + [sorted(s['headers'])], [r.status, r.raw, r.data, sorted((k, v) for k, v in r.header.items())]

    want = sent(client(kind, auth), a.op['theOp'](**args))
    c, pair = client(kind, auth), a.op['theOp'](**args)
    used = S.choice('used', [False, True])
    if used:
        sent(c, pair)
    for _ in range(S.choice('times', [1, 2])):
        stubs.reset(*ok)
        if how == 'send':
            stubs.ANSWER[0] = IOError('no connection')
        elif how == 'answer':
            stubs.reset(200, [('Content-Type', 'application/json'), ('Old', 'o')], b'{')
        elif how == 'status':
            stubs.reset(404, [('Content-Type', 'application/json'), ('Old', 'o')], b'"x"')
        elif how == 'header':
            stubs.reset(200, [('Old', 'o'), ('N', '9')], b'"x"')
        elif how == 'scheme':
            pair[0].scheme = 'ftp'
        elif how == 'accept':
            pair[0].produce('x/none')
        e, _ = S.fn_raises(Exception, lambda: c.request(pair, opt, more))
        S.check(e is not None, 'the failure is not reported')
        S.check(how not in ('send', 'scheme', 'accept') or (pair[1].status is None and pair[1].raw is None and pair[1].data is None and not list(pair[1].header)), 'the response of an earlier sending is left')
        S.check(opt == {'url_netloc': 'other:81'} and S.same(more, {'X-More': t}), "the caller's options or headers are changed")
        S.check(how not in ('scheme', 'accept') or not stubs.SENT, 'a request is sent in spite of the error')
    pair[0].scheme = None
    pair[0].produce(None)
    got = sent(c, pair)
    for k, x, y in zip(['method', 'URL', 'query', 'body', 'form', 'files', 'headers'], got[0], want[0]):
        S.check(S.same(x, y), 'after a failure another %s is sent' % k)
    for k, x, y in zip(['status', 'raw body', 'data', 'headers'], got[1], want[1]):
        S.check(S.same(x, y), 'after a failure the response has another %s' % k)
