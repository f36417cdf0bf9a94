"""C37 the order of the members of a description does not matter"""
import json
from itertools import permutations
from symx.api import obligation
from pyswagger.errs import ValidationError
from pyswagger.spec.v2_0.parser import SchemaContext
from harness.util import doc, URL
from harness.v12 import docs12, res12, op12, ROOT
from harness.util import app as app_

U = 'http://h.x/api/other.json'


def orders(n):
    return [list(p) for p in permutations(range(n))]


def shuffled(S, tag, d, keys=None, perms=None):
    """d with its members in any order (those of keys first)"""
    ks = list(d)
    if keys is not None:
        ks = [k for k in keys if k in d] + [k for k in ks if k not in keys]
        n = len([k for k in keys if k in d])
    else:
        n = len(ks)
    o = S.choice(tag, perms or orders(n))
    ks = [ks[i] for i in o] + ks[n:]
    return dict((k, d[k]) for k in ks)


def description(m, n):
    return {
        'swagger': '2.0', 'info': {'version': '1', 'title': 't'}, 'host': 'h.x', 'basePath': '/b',
        'consumes': ['application/json'], 'produces': ['application/json', 'text/plain'], 'schemes': ['https'],
        'security': [{'key': []}], 'securityDefinitions': {'key': {'type': 'apiKey', 'name': 'k', 'in': 'query'}, 'other': {'type': 'basic'}},
        'parameters': {'Id': {'name': 'id', 'in': 'path', 'type': 'integer', 'required': True, 'maximum': m},
                       'Body': {'name': 'body', 'in': 'body', 'schema': {'$ref': '#/definitions/M'}}},
        'responses': {'Ok': {'description': 'ok', 'schema': {'$ref': '#/definitions/L'}}},
        'definitions': {
            'M': {'type': 'object', 'allOf': [{'$ref': '#/definitions/B'}, {'required': ['n'], 'properties': {'n': {'$ref': '#/definitions/N'}}}]},
            'B': {'type': 'object', 'properties': {'x': {'$ref': '#/definitions/N'}}},
            'N': {'type': 'integer', 'maximum': n},
            'L': {'type': 'array', 'items': {'$ref': '#/definitions/M'}}},
        'paths': {
            '/a/{id}': {'parameters': [{'$ref': '#/parameters/Id'}, {'name': 'q', 'in': 'query', 'type': 'string', 'default': 'd'}],
                        'post': {'summary': 's', 'parameters': [{'$ref': '#/parameters/Body'}], 'responses': {'200': {'$ref': '#/responses/Ok'}, 'default': {'description': 'e'}}},
                        'get': {'security': [], 'parameters': [{'name': 'q', 'in': 'query', 'type': 'integer', 'default': 3}], 'responses': {'200': {'$ref': '#/responses/Ok'}}}},
            '/c/{id}': {'$ref': '#/paths/~1a~1{id}'},
            '/d': {'get': {'operationId': 'single', 'tags': ['t', 'u'], 'responses': {'200': {'description': 'ok'}}}}}}


GROUPS = {
    'top': (['definitions', 'paths', 'parameters', 'responses'],),
    'settings': (['consumes', 'security', 'securityDefinitions', 'paths'],),
    'definitions': ('definitions', ['M', 'B', 'N', 'L']),
    'paths': ('paths', None),
    'item': ('paths', '/a/{id}', None),
    'operation': ('paths', '/a/{id}', 'post', None),
    'single': ('paths', '/d', 'get', None),
    'member': ('definitions', 'M', None),
    'parameter': ('parameters', 'Id', ['in', 'type', 'maximum', 'required']),
    'shared': ('parameters', None),
}


HEAVY = ['settings', 'parameter', 'top']


def apply_(S, d, path):
    """d with the members at the path in any order, those of a second place reversed"""
    d = json_copy(d)
    if len(path) == 1:
        return shuffled(S, 'order', d, path[0])
    o = d
    for k in path[:-2]:
        o = o[k]
    o[path[-2]] = shuffled(S, 'order', o[path[-2]], path[-1])
    return d


def json_copy(d):
    if isinstance(d, dict):
        return dict((k, json_copy(v)) for k, v in d.items())
    if isinstance(d, list):
        return [json_copy(v) for v in d]
    return d


def reverse(d):
    return dict((k, reverse(v)) for k, v in reversed(list(d.items()))) if isinstance(d, dict) else d


def verify(S, a, m, n):
    i, x, y = S.int('i', 0, 9), S.int('x', -50, 50), 0
    for key in (('t', 'single'), ('u', 'single'), 'single'):
        S.check(a.op[key].path == '/d' and a.op[key].base_path == '/b', 'an operation is found at another path')
    for p in ('/a/{id}', '/c/{id}'):
        item = a.root.paths[p]
        for method in ('post', 'get'):
            o = getattr(item, method)
            args = {'id': i}
            ok = i <= m
            if method == 'post':
                args['body'] = {'n': x, 'x': y}
                ok = S.all(ok, x <= n, y <= n)
            e, r = S.fn_raises((ValidationError, ValueError), lambda: o(**args))
            S.check(S.iff(e is None, ok), 'a limit is lost')
            if e is not None:
                continue
            req, resp = r
            req.prepare()
            S.check(S.same(req.path, p[:3] + str(i)), 'the path is another one')
            S.check(S.same(list(req.query), [('q', 'd' if method == 'post' else '3')]), 'a parameter is lost or doubled')
            S.check(req.method == method, 'the method is another one')
            S.check(req.schemes == ['https'] and req.header['Accept'] == 'application/json', 'a setting of the description is lost')
            S.check(req._security == ([{'key': []}] if method == 'post' else []), 'the security is another one')
            S.check('https:' + req.url.split(':', 1)[1] == 'https://h.x/b' + p[:3] + str(i), 'the URL is another one')
            if method == 'post':
                S.check(S.same(json.loads(req.data), {'n': x, 'x': y}), 'the body is another one')
                e, _ = S.fn_raises(ValueError, lambda: o(id=0, body={'x': 0}))
                S.check(e is not None, 'a required property is lost')
    s = a.resolve('#/responses/Ok').schema
    e, r = S.fn_raises((ValidationError, ValueError), a.prim_factory.produce, s, [{'n': x}])
    S.check(S.iff(e is None, x <= n), 'a limit of a response is lost')
    S.check(a.op['single'].url == '//h.x/b/d', 'the URL is another one')


@obligation('orders', bounds='a description using shared parameters, responses, definitions (allOf, nested references), a referenced path item, tags, settings and security: the members of one object in every order, those of all others in the written or the reverse order; any limits (0..9 and 0..50) and values (0..9 and -50..50)',
            cases=[dict(group=g, rev=r) for g in GROUPS for r in (False, True) if not (r and g in HEAVY)],
            thorough=[dict(group=g, rev=True) for g in HEAVY], budget=120)
def orders_(S, group, rev):
    m, n = S.int('m', 0, 9), S.int('n', 0, 50)
    d = description(m, n)
    if rev:
        d = reverse(d)
    d = apply_(S, d, GROUPS[group])
    verify(S, app_(d), m, n)


@obligation('documents', bounds='the definitions and paths of a description spread over two documents referring to each other, members in every order',
            cases=[dict(rev=r, what=w) for r in (False, True) for w in ('members', 'definitions', 'paths', 'other')])
def documents(S, rev, what):
    n = S.int('n', -50, 50)
    d1 = doc({'/a': {'$ref': U + '#/paths/~1z'}, '/b': {'get': {'operationId': 'b', 'parameters': [{'$ref': U + '#/parameters/P'}], 'responses': {'200': {'description': 'd'}}}}},
             definitions={'X': {'$ref': U + '#/definitions/Y'}, 'N': {'type': 'integer', 'maximum': n}, 'Z': {'type': 'array', 'items': {'$ref': '#/definitions/X'}}})
    d2 = doc({'/z': {'get': {'operationId': 'z', 'parameters': [{'$ref': '#/parameters/P'}], 'responses': {'200': {'description': 'd'}}}}},
             parameters={'P': {'name': 'p', 'in': 'query', 'type': 'integer', 'maximum': n}},
             definitions={'Y': {'allOf': [{'$ref': URL + '#/definitions/N'}, {'minimum': -10}]}, 'W': {'$ref': URL + '#/definitions/Z'}})
    if rev:
        d1, d2 = reverse(d1), reverse(d2)
    if what == 'members':
        d1 = shuffled(S, 'order', d1, ['paths', 'definitions'])
    elif what == 'other':
        d2 = shuffled(S, 'order', d2, ['paths', 'definitions', 'parameters'])
    else:
        d1[what] = shuffled(S, 'order', d1[what])
    a = app_({URL: d1, U: d2})
    v = S.int('v', -50, 50)
    for ref in ('#/definitions/X', URL + '#/definitions/X', U + '#/definitions/Y'):
        e, r = S.fn_raises(ValidationError, a.prim_factory.produce, a.resolve(ref), v)
        S.check(S.iff(e is None, S.all(v <= n, v >= -10)), 'a limit is lost')
    for ref in ('#/definitions/Z', U + '#/definitions/W'):
        e, r = S.fn_raises(ValidationError, a.prim_factory.produce, a.resolve(ref, SchemaContext), [v])
        S.check(S.iff(e is None, S.all(v <= n, v >= -10)), 'a limit of the items is lost')
    for p in ('/a', '/b'):
        e, r = S.fn_raises(ValidationError, lambda: a.root.paths[p].get(p=v))
        S.check(S.iff(e is None, v <= n), 'a limit of the parameter is lost')
        if e is None:
            S.check(S.same(list(r[0].query), [('p', str(v))]), 'the argument is lost')


@obligation('resources', bounds='Swagger 1.2: three resources with models and sub types, in every order of resources, models, operations and parameters',
            cases=[dict(rev=r, what=w) for r in (False, True) for w in ('resources', 'models', 'operations', 'parameters', 'members') if not (r and w in ('models', 'members'))],
            thorough=[dict(rev=True, what=w) for w in ('models', 'members')])
def resources(S, rev, what):
    n = S.int('n', -50, 50)
    params = [{'paramType': 'path', 'name': 'id', 'type': 'integer', 'required': True, 'maximum': str(40)},
              {'paramType': 'query', 'name': 'q', 'type': 'integer', 'defaultValue': 3, 'required': False},
              {'paramType': 'header', 'name': 'h', 'type': 'string', 'required': False}]
    models = {'A': {'id': 'A', 'subTypes': ['B', 'C'], 'discriminator': 'k', 'properties': {'k': {'type': 'string'}, 'x': {'type': 'integer', 'maximum': n}}},
              'B': {'id': 'B', 'subTypes': ['E'], 'discriminator': 'j', 'properties': {'y': {'$ref': 'D'}, 'j': {'type': 'string'}}},
              'E': {'id': 'E', 'properties': {}},
              'C': {'id': 'C', 'properties': {'z': {'type': 'array', 'items': {'$ref': 'D'}}}},
              'D': {'id': 'D', 'required': ['d'], 'properties': {'d': {'type': 'integer', 'minimum': 0}}}}
    ops = [op12('get', params=params), op12('add', 'POST', params=[params[0], {'paramType': 'body', 'name': 'body', 'type': 'B'}]), op12('put', 'PUT', params=[params[0]])]
    if what == 'models':
        models['B'].pop('subTypes')
        models.pop('E')
        models = shuffled(S, 'order', models)
    elif what == 'operations':
        ops = [ops[i] for i in S.choice('order', orders(3))]
    elif what == 'parameters':
        ops[0]['parameters'] = [params[i] for i in S.choice('order', orders(3))]
    elif what == 'members':
        models['A'] = shuffled(S, 'order', models['A'])
    if rev:
        models = reverse(models)
    rs = {'one': res12([('/a/{id}', ops)], models=models),
          'two': res12([('/b', [op12('get')])]),
          'three': res12([('/c', [op12('list', type='array', items={'$ref': 'M'})])], models={'M': {'id': 'M', 'properties': {'x': {'type': 'integer', 'maximum': n}}}})}
    if rev:
        rs = dict(reversed(list(rs.items())))
    if what == 'resources':
        rs = shuffled(S, 'order', rs)
    a = app_(docs12(rs), ROOT)
    x = S.int('x', -50, 50)
    e, r = S.fn_raises(ValidationError, lambda: a.op['one', 'add'](id=1, body={'x': x, 'y': {'d': 1}}))
    S.check(S.iff(e is None, x <= n), 'a limit of the base model is lost')
    if e is None:
        b = r[0]._p['body']['body']
        S.check(S.same(dict(b['y']), {'d': 1}) and S.same(b['x'], x), 'the body is another one')
    e, _ = S.fn_raises(ValidationError, a.prim_factory.produce, a.m['one', 'E' if 'E' in models else 'C'], {'x': x, 'y': {'d': 1}} if 'E' in models else {'x': x})
    S.check(S.iff(e is None, x <= n), 'a limit of the base of the base model is lost')
    for bad in ({'x': n, 'y': {}}, {'x': n, 'y': {'d': -1}}):
        e, _ = S.fn_raises((ValidationError, ValueError), lambda: a.op['one', 'add'](id=1, body=bad))
        S.check(e is not None, 'a rule of a model is lost')
    S.assume(x >= -9)
    e, r = S.fn_raises(ValidationError, lambda: a.op['one', 'get'](id=x + 39, h='t'))
    S.check(S.iff(e is None, x <= 1), 'a limit of a parameter is lost')
    if e is None:
        r[0].prepare()
        S.check(S.same(r[0].path, '/v1/a/' + str(x + 39)) and list(r[0].query) == [('q', '3')] and dict(r[0].header.items()) == {'h': 't'}, 'an argument is at another place')
    S.check(a.op['two', 'get'].path == '/v1/b' and a.op['list'].path == '/v1/c' and a.op['put'].path == '/v1/a/{id}', 'an operation is another one')
    s = a.m['three', 'M']
    e, _ = S.fn_raises(ValidationError, a.prim_factory.produce, s, {'x': x})
    S.check(S.iff(e is None, x <= n), 'a limit of a model is lost')
