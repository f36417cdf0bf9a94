"""C40 What was done with an App before does not change what it does"""
import json
from symx.api import obligation
from pyswagger import App
from pyswagger.primitives.render import Renderer
from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0.parser import SchemaContext, ParameterContext, ResponseContext, PathItemContext, OperationContext, SwaggerContext
from harness.util import getter, URL
from harness.v12 import docs12, res12, op12, ROOT

FAR, FAR2 = 'http://h.x/api/o.json', 'http://h.x/api/o2.json'


def documents(m):
    return {URL: {
        'swagger': '2.0', 'info': {'version': '1', 'title': 't'}, 'host': 'h.x', 'basePath': '/b', 'consumes': ['application/json'],
        'parameters': {'P': {'name': 'p', 'in': 'query', 'type': 'integer', 'default': 1, 'maximum': m}},
        'responses': {'R': {'description': 'd', 'schema': {'$ref': 'o.json#/S'}}},
        'definitions': {'A': {'allOf': [{'$ref': '#/definitions/B'}], 'properties': {'x': {'type': 'string'}}},
                        'B': {'type': 'object', 'required': ['y'], 'properties': {'y': {'type': 'integer', 'maximum': m}}},
                        'L': {'type': 'array', 'items': {'$ref': '#/definitions/A'}}},
        'paths': {'/x': {'$ref': 'o.json#/PI'},
                  '/y': {'parameters': [{'$ref': '#/parameters/P'}],
                         'post': {'operationId': 'y', 'tags': ['t'], 'parameters': [{'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/A'}}],
                                  'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/L'}}, '400': {'$ref': '#/responses/R'}}}}}},
        FAR: {'S': {'type': 'object', 'properties': {'s': {'type': 'integer', 'maximum': m}, 'o': {'$ref': 'o2.json#/T'}}},
              'PI': {'parameters': [{'name': 'q', 'in': 'query', 'type': 'integer', 'maximum': m}], 'get': {'operationId': 'x', 'responses': {'200': {'description': 'd'}}}}},
        FAR2: {'T': {'type': 'integer', 'maximum': m}}}


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def outcome(S, f):
    """what f gives, or the type of its error"""
    e, r = S.fn_raises(Exception, f)
    return type(e).__name__ if e is not None else r


def request(o, **k):
    r, _ = o(**k)
    r.prepare('http')
    # the text is that of the codec, C11; what it was made from is compared
    return [r.method, r.url, r.path, r.query, r.header.get('Content-Type', None), plain(r._p['body'])]


def response(o, status, raw, **k):
    _, s = o(**k)
    s.apply_with(status=status, raw=raw, header={'Content-Type': 'application/json'})
    return plain(s.data)


def behaviour(S, a, i):
    """what an App does with an integer"""
    out = [('keys', sorted(a.op.keys())), ('schemes', list(a.schemes))]
    for k in sorted(a.op.keys()):
        o = a.op[k]
        out.append((k, [o.method, o.path, o.url, list(o.consumes or []), len(o.parameters)]))
    out.append(('y', outcome(S, lambda: request(a.op['y'], b={'x': 'a', 'y': i}))))
    out.append(('y, all', outcome(S, lambda: request(a.op['t', 'y'], p=i, b={'y': 1}))))
    out.append(('x', outcome(S, lambda: request(a.op['x'], q=i))))
    out.append(('200', outcome(S, lambda: response(a.op['y'], 200, '[{"y": %d}, {"x": "b", "y": 1}]' % i, b={'y': 1}))))
    out.append(('400', outcome(S, lambda: response(a.op['y'], 400, '{"s": 1, "o": %d}' % i, b={'y': 1}))))
    out.append(('A', outcome(S, lambda: plain(a.prim_factory.produce(a.resolve('#/definitions/A'), {'x': 'c', 'y': i})))))
    out.append(('model', outcome(S, lambda: plain(a.prim_factory.produce(a.m['L'], [{'y': i}])))))
    out.append(('S', outcome(S, lambda: plain(a.prim_factory.produce(a.resolve(FAR + '#/S'), {'s': i, 'o': i})))))
    out.append(('root', plain(a.root.dump())))
    out.append(('raw', plain(a.raw.dump())))
    out.append(('errors', [str(x) for x in a.validate(strict=False)]))
    return out


def compare(S, got, expected, what, known=None):
    S.check(len(got) == len(expected), what)
    for (k, g), (_, e) in zip(got, expected):
        S.check(S.same(g, e), '%s: %s is different' % (what, k), known=(known[0], k in known[1]) if known else None)


ACTIONS = {
    'validate': lambda a: a.validate(),
    'prepare': lambda a: a.prepare(),
    'loose': lambda a: a.prepare(strict=False),
    'definition': lambda a: a.resolve(URL + '#/definitions/A', parser=SchemaContext),
    'base': lambda a: a.resolve(URL + '#/definitions/B', parser=SchemaContext),
    'local': lambda a: a.resolve('#/definitions/L', parser=SchemaContext),
    'parameter': lambda a: a.resolve(URL + '#/parameters/P', parser=ParameterContext),
    'response': lambda a: a.resolve(URL + '#/responses/R', parser=ResponseContext),
    'far': lambda a: a.resolve(FAR + '#/S', parser=SchemaContext),
    'farther': lambda a: a.resolve(FAR2 + '#/T', parser=SchemaContext),
    'item': lambda a: a.resolve(FAR + '#/PI', parser=PathItemContext),
    'root': lambda a: a.resolve(URL, parser=SwaggerContext),
    'path': lambda a: a.resolve(URL + '#/paths/~1y', parser=PathItemContext),
    'operation': lambda a: a.resolve(URL + '#/paths/~1y/post', parser=OperationContext),
    'dump': lambda a: a.raw.dump(),
    'missing': lambda a: a.resolve('http://h.x/api/none.json#/S', parser=SchemaContext),
    'nowhere': lambda a: a.resolve(FAR + '#/N', parser=SchemaContext),
    'other': lambda a: a.resolve(URL + '#/definitions/N', parser=SchemaContext),
    'compare': lambda a: a.raw.compare(a.raw),
    'call': lambda a: a.op['y'](b={'y': 1})[0].prepare('https'),
    'refused': lambda a: a.op['y'](b={'y': 99}),
    'unknown': lambda a: a.op['none'],
    'render': lambda a: Renderer().render_all(a.op['y']),
}
NAMES = sorted(ACTIONS)
FEW = ['definition', 'far', 'item', 'loose', 'nowhere', 'path', 'prepare', 'validate']


def fresh(docs):
    return App.load(URL, resolver=Resolver(default_getter=getter(docs, [])))


def expected_of(S, m, i):
    a = fresh(documents(m))
    a.prepare()
    return behaviour(S, a, i)


@obligation('before', bounds='an App of three documents (any limit 0..9; path item, definitions, parameters, responses by references) with which two of 23 things are done before it is prepared: references resolved, parts of the document parsed by themselves, failing lookups, validating, preparing, dumping, comparing; used with integers 0..12',
            cases=[dict(first=n, then=None) for n in NAMES if n not in ('call', 'refused', 'unknown', 'render')],
            thorough=[dict(first=n, then=t) for n in NAMES for t in NAMES])
def before(S, first, then):
    m, i = S.int('m', 1, 9), S.int('i', 0, 12)
    then = then or S.choice('then', FEW)
    a = fresh(documents(m))
    for n in (first, then):
        S.fn_raises(Exception, ACTIONS[n], a)
    a.prepare()
    compare(S, behaviour(S, a, i), expected_of(S, m, i), 'after %s and %s' % (first, then))


@obligation('after', bounds='the same App, prepared, with which two of 23 things are done afterwards, also calls with refused arguments, rendering and preparing again; used with integers 0..12',
            cases=[dict(first=n, then=None) for n in NAMES if n != 'render'],
            thorough=[dict(first=n, then=t) for n in NAMES for t in NAMES if 'render' not in (n, t)])
def after(S, first, then):
    m, i = S.int('m', 1, 9), S.int('i', 0, 12)
    then = then or S.choice('then', FEW)
    a = fresh(documents(m))
    a.prepare()
    for n in (first, then):
        S.fn_raises(Exception, ACTIONS[n], a)
    compare(S, behaviour(S, a, i), expected_of(S, m, i), 'after %s and %s' % (first, then))


@obligation('faults', bounds='the same App whose documents cannot be read at one or two of the first five attempts (any of them), until preparing succeeds; used with integers 0..12', cases=[dict(by=b) for b in ('prepare', 'resolve')])
def faults(S, by):
    m, i = S.int('m', 1, 9), S.int('i', 0, 12)
    f, g = S.int('f', 0, 5), S.int('g', 0, 5)
    docs = documents(m)
    log, failed = [], []
    base = getter(docs, log)

    class Flaky(base):
        def load(self, url):
            d = base.load(self, url)
            if S.any(len(log) - 1 == f, len(log) - 1 == g):
                failed.append(url)
                raise IOError('not now')
            return d

    r = Resolver(default_getter=Flaky)
    a = None
    for _ in range(3):
        e, a = S.fn_raises(IOError, lambda: App.load(URL, resolver=r))
        if e is None:
            break
    S.check(a is not None, 'the document was readable the third time')
    if by == 'resolve':
        for _ in range(2):
            S.fn_raises(IOError, ACTIONS['far'], a)
    for _ in range(3):
        e, _r = S.fn_raises(IOError, a.prepare)
        if e is None:
            break
    S.check(e is None, 'the documents were readable the third time')
    # what was read before a document it refers to could not be read stays unresolved
    half = ('400', 'S') if FAR2 in failed else ()
    compare(S, behaviour(S, a, i), expected_of(S, m, i), 'after errors of reading', known=('unread-reference', half))
    S.reach('prepared')


INVALID = {
    'cycle': lambda d: d['definitions'].update(C={'type': 'object', 'properties': {'c': {'$ref': '#/definitions/C'}}}),
    'readonly': lambda d: d['definitions'].update(C={'type': 'object', 'required': ['c'], 'properties': {'c': {'type': 'integer', 'readOnly': True}}}),
    'both': lambda d: d['definitions'].update(C={'type': 'object', 'required': ['c'], 'properties': {'c': {'readOnly': True, '$ref': '#/definitions/C'}, 'd': {'$ref': '#/definitions/C'}}}),
}


@obligation('refused', bounds='a description with a cycle of references, a required property that is readOnly, or both: refused any number (0..2) of times in strict mode, validated (0..2 times) before or after, then prepared without strictness (any limit 0..9; integers 0..12)', cases=[dict(what=w) for w in sorted(INVALID)])
def refused(S, what):
    m, i = S.int('m', 1, 9), S.int('i', 0, 12)
    n, v = S.choice('strict', [0, 1, 2]), S.choice('validated', [0, 1, 2])
    docs = documents(m)
    INVALID[what](docs[URL])
    b = fresh(docs)
    b.prepare(strict=False)
    a = fresh(docs)
    first = S.choice('first', [False, True])
    errors = [str(x) for x in b.validate(strict=False)]

    def validate():
        for _ in range(v):
            S.check([str(x) for x in a.validate(strict=False)] == errors, 'validating gives other errors')
    if first:
        validate()
    for _ in range(n):
        e, _r = S.fn_raises(Exception, a.prepare)
        S.check(e is not None, 'accepted the next time')
    if not first:
        validate()
    a.prepare(strict=False)
    compare(S, behaviour(S, a, i), behaviour(S, b, i), 'after being refused')
    e, _r = S.fn_raises(Exception, a.prepare)
    S.check(e is not None, 'accepted after it was prepared without strictness')


def old_docs(m):
    return docs12({'r': res12([('/p/{a}', [op12('get', params=[{'paramType': 'path', 'name': 'a', 'type': 'integer', 'required': True, 'maximum': m}])]),
                               ('/q', [op12('add', 'POST', params=[{'paramType': 'body', 'name': 'body', 'type': 'M'}])])],
                              models={'M': {'id': 'M', 'subTypes': ['N'], 'discriminator': 'k', 'properties': {'k': {'type': 'string'}, 'x': {'type': 'integer', 'maximum': m}}},
                                      'N': {'id': 'N', 'properties': {'y': {'type': 'integer'}}}})})


OLD = {
    'validate': lambda a: a.validate(),
    'prepare': lambda a: a.prepare(),
    'loose': lambda a: a.prepare(strict=False),
    'dump': lambda a: a.raw.dump(),
    'compare': lambda a: a.raw.compare(a.raw),
    'model': lambda a: a.resolve('#/definitions/r!##!M'),
    'missing': lambda a: a.resolve('#/definitions/r!##!X'),
    'path': lambda a: a.resolve('#/paths/~1v1~1q'),
    'call': lambda a: a.op['add'](body={'k': 'M', 'x': 0})[0].prepare('http'),
    'refused': lambda a: a.op['get'](a=99),
}


def old_behaviour(S, a, i):
    out = [('keys', sorted(a.op.keys())), ('models', sorted(a.m.keys())), ('schemes', list(a.schemes))]
    for k in sorted(a.op.keys()):
        o = a.op[k]
        out.append((k, [o.method, o.path, o.url, len(o.parameters)]))
    out.append(('get', outcome(S, lambda: request(a.op['get'], a=i))))
    out.append(('add', outcome(S, lambda: request(a.op['add'], body={'k': 'M', 'x': i}))))
    for n in ('M', 'N'):
        out.append((n, outcome(S, lambda: plain(a.prim_factory.produce(a.m[n], {'k': n, 'x': i, 'y': 1})))))
    out.append(('root', plain(a.root.dump())))
    out.append(('raw', plain(a.raw.dump())))
    out.append(('errors', [str(x) for x in a.validate(strict=False)]))
    return out


@obligation('old', bounds='Swagger 1.2 (model with subtype, operations with path and body parameter, any limit 0..9): two of ten things done before or after preparing; used with integers 0..12', cases=[dict(first=n) for n in sorted(OLD)])
def old(S, first):
    m, i = S.int('m', 1, 9), S.int('i', 0, 12)
    then, prepared = S.choice('then', sorted(OLD)), S.choice('prepared', [False, True])

    def make():
        return App.load(ROOT, resolver=Resolver(default_getter=getter(old_docs(m), [])))
    a, b = make(), make()
    b.prepare()
    if prepared:
        a.prepare()
    for n in (first, then):
        S.fn_raises(Exception, OLD[n], a)
    a.prepare()
    compare(S, old_behaviour(S, a, i), old_behaviour(S, b, i), 'after %s and %s' % (first, then))
