"""C19 JSON pointers round trip and resolve exactly"""
from symx.api import obligation
from pyswagger.utils import jp_compose, jp_split, jr_split
from harness.util import app, doc, URL

ASCII = [(33, 126)]


def tokens(S, n, size, alphabet, minlen=0):
    return [S.str('t%d' % i, size, minlen, alphabet) for i in range(n)]


def esc(t):
    return t.replace('~', '~0').replace('/', '~1')


@obligation('tokens', bounds='up to 3 tokens of up to 3 characters of "~/01a#"; 1 token of 1 Unicode or up to 4 ASCII characters; with and without a base, composed at once or one after another',
            cases=[dict(n=1, size=4, alphabet='~/01'), dict(n=2, size=2, alphabet='~/01a#'), dict(n=3, size=1, alphabet='~/01a#'),
                   dict(n=1, size=1, alphabet=None), dict(n=1, size=3, alphabet=[(0, 127)])],
            thorough=[dict(n=1, size=6, alphabet='~/01'), dict(n=2, size=3, alphabet='~/01'), dict(n=3, size=2, alphabet='~/01')])
def tokens_(S, n, size, alphabet):
    ts = tokens(S, n, size, alphabet)
    p = jp_compose(list(ts), '#')
    S.observe('p', p)
    S.check(S.same(jp_split(p), ['#'] + ts), 'composing and splitting changes the tokens')
    jp_split(p).append('x')
    S.check(S.same(jp_split(p), ['#'] + ts), 'splitting again gives other tokens')
    q = '#'
    for t in ts:
        q = jp_compose(t, base=q)
    S.check(S.same(q, p), 'composing one token after another gives another pointer')
    S.check(S.same(p, '/'.join(['#'] + [esc(t) for t in ts])), 'the pointer is not the one of RFC 6901')
    if n > 1 or len(ts[0]):
        S.check(S.same(jp_split(jp_compose(list(ts))), ts), 'composing and splitting changes the tokens')
    S.check(S.same(jp_compose(None, p), p), 'appending nothing changes the pointer')


URLS = ['http://test.com/api/swagger.json', 'https://a.b:81/', 'file:///a/b.json', 'http://h/p?q=1&r=2', 'http://h/p;v=1']


@obligation('reference', bounds='five URLs and pointers of up to 4 printable ASCII characters after "/" (also "?", ";", "%", "#")',
            cases=[dict(url=u) for u in URLS + ['']])
def reference(S, url):
    ptr = S.str('ptr', 4, 0, ASCII) if url in ('', URLS[0]) else S.str('ptr', 2, 0, ASCII)
    u, jp = jr_split(url + '#/' + ptr)
    S.check(S.same(u, url), 'the URL is changed')
    S.check(S.same(jp, '#/' + ptr), 'the pointer is changed')
    u, jp = jr_split(url + '#')
    S.check(u == url and jp == '#', 'the empty pointer is changed')
    if url:
        S.check(jr_split(url) == (url, '#'), 'a URL without pointer is changed')


@obligation('resolve', bounds='definitions, paths, properties and response headers with names of up to 3 characters of "~/1a%?", reached with or without the URL; a second name of 1 character; names that are not there',
            cases=[dict(where=w, n=n) for w in ('definitions', 'paths', 'properties', 'parameters', 'headers') for n in ((1, 2) if w in ('definitions', 'paths') else (1,))],
            thorough=[dict(where=w, n=n) for w in ('definitions', 'paths', 'properties', 'parameters', 'headers') for n in (2, 3)])
def resolve(S, where, n):
    k = S.str('k', n, n, '~/1a%?' if n < 3 else '~/1')
    k2 = S.str('k2', 1, 1, '~/1a')
    S.assume(k != k2)
    m = S.int('m', 0, 99)

    def both(x, y):
        d = {}
        d[k] = x
        d[k2] = y
        return d
    s1, s2 = {'type': 'integer', 'maximum': m}, {'type': 'integer', 'maximum': 200}
    top = {}
    paths = {}
    if where == 'definitions':
        top = {'definitions': both(s1, s2)}
        base = '#/definitions'
    elif where == 'properties':
        top = {'definitions': {'A': {'type': 'object', 'properties': both(s1, s2)}}}
        base = '#/definitions/A/properties'
    elif where == 'parameters':
        top = {'parameters': both(dict(s1, name='x', **{'in': 'query'}), dict(s2, name='y', **{'in': 'query'}))}
        base = '#/parameters'
    elif where == 'headers':
        paths = {'/p': {'get': {'responses': {'200': {'description': '', 'headers': both(s1, s2)}}}}}
        base = '#/paths/~1p/get/responses/200/headers'
    else:
        def item(s):
            return {'get': {'responses': {}, 'parameters': [dict(s, name='x', **{'in': 'query'})]}}
        paths = both(item(s1), item(s2))
        base = '#/paths'
    a = app(doc(paths, **top), strict=False)
    ref = jp_compose(k, base)
    o = a.resolve(ref)
    o2 = a.resolve(jp_compose(k2, base))
    u = a.resolve(URL + ref)
    if where == 'paths':
        o, o2, u = [x.get.parameters[0] for x in (o, o2, u)]
        S.check(S.same(a.resolve(ref + '/get/parameters/0/maximum'), m), 'a value below is another one')
        if not k.startswith('/'):
            return
        S.check(S.same(a.s(k).get.parameters[0].maximum, m), 'the shortcut leads elsewhere')
    S.check(S.all(S.same(o.maximum, m), o2.maximum == 200, S.same(u.maximum, m)), 'the pointer leads to another object')
    bad = S.str('bad', 2, 1, '~/1a')
    if bad != k and bad != k2:
        e, _ = S.fn_raises(Exception, lambda: a.resolve(jp_compose(bad, base)))
        S.check(e is not None, 'a pointer to nothing leads somewhere')


RICH = {
    'definitions': {'A': {'type': 'object', 'required': ['x'], 'properties': {'x': {'type': 'array', 'items': {'type': 'integer'}}, 'y/z': {'allOf': [{'type': 'object'}, {'type': 'object'}]}},
                          'additionalProperties': {'type': 'string'}, 'externalDocs': {'url': 'http://e'}, 'xml': {'name': 'n'}}},
    'parameters': {'p~': {'name': 'p', 'in': 'body', 'schema': {'type': 'integer'}}, 'l': {'name': 'l', 'in': 'query', 'type': 'array', 'items': {'type': 'array', 'items': {'type': 'string'}}}},
    'responses': {'r': {'description': '', 'schema': {'type': 'integer'}, 'headers': {'H': {'type': 'array', 'items': {'type': 'integer'}}}}},
    'securityDefinitions': {'s': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'u', 'scopes': {'a': 'b'}}},
    'tags': [{'name': 't', 'externalDocs': {'url': 'x'}}],
}


@obligation('children', bounds='one document with every kind of object; a symbolic path of up to 2 characters and a status code: every object is found at its own pointer')
def children(S):
    p = '/' + S.str('p', 2, 0, '~/{')
    paths = {}
    st = str(S.int('status', 200, 299))
    resp = {}
    resp[st] = {'description': 'd', 'schema': {'type': 'object'}, 'examples': {'a/b': 1}}
    paths[p] = {'parameters': [{'name': 'a', 'in': 'query', 'type': 'string'}], 'get': {'parameters': [{'name': 'b', 'in': 'header', 'type': 'string'}], 'responses': resp}, 'put': {'responses': {}}}
    a = app(doc(paths, **RICH), strict=False)
    todo, n = [('#', a.root)], 0
    while todo:
        ptr, o = todo.pop()
        r = a.resolve(ptr)
        S.check(r.is_set.__self__ is o, 'the pointer of an object leads elsewhere: ' + type(o).__name__)
        n += 1
        for name, c in o._children_.items():
            todo.append((ptr + '/' + name, c))
    S.check(n >= 30, 'objects are missing')
