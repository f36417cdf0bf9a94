"""the fields of the specification, and descriptions around one object"""
from pyswagger.spec.base import BaseObj
from harness.util import doc

# fields of the specification: name -> kind
#   t text, b boolean, n number, i integer, v any value, lt list of texts, lv list of values, r raw mapping
#   an object: its name; lists and mappings of them: [name], {name}
NUM = dict((k, 'n') for k in ('maximum', 'minimum', 'multipleOf'))
INT = dict((k, 'i') for k in ('maxLength', 'minLength', 'maxItems', 'minItems'))
BASE = dict(NUM, type='t', format='t', default='v', exclusiveMaximum='b', exclusiveMinimum='b', enum='lv', pattern='t', uniqueItems='b', **INT)
SPEC = {
    'Swagger': dict(swagger='t', info='Info', host='t', basePath='t', schemes='lt', consumes='lt', produces='lt', paths='{PathItem',
                    definitions='{Schema', parameters='{Parameter', responses='{Response', securityDefinitions='{SecurityScheme',
                    security='lr', tags='[Tag', externalDocs='Docs'),
    'Info': dict(version='t', title='t', description='t', termsOfService='t', contact='Contact', license='License'),
    'Contact': dict(name='t', url='t', email='t'),
    'License': dict(name='t', url='t'),
    'Docs': dict(description='t', url='t'),
    'Tag': dict(name='t', description='t', externalDocs='Docs'),
    'SecurityScheme': dict(type='t', name='t', flow='t', authorizationUrl='t', tokenUrl='t', scopes='r', description='t', **{'in': 't'}),
    'PathItem': dict(dict((m, 'Operation') for m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')), parameters='[Parameter', **{'$ref': 't'}),
    'Operation': dict(tags='lt', operationId='t', consumes='lt', produces='lt', schemes='lt', parameters='[Parameter', responses='{Response',
                      deprecated='b', security='lr', description='t', summary='t', externalDocs='Docs'),
    'Parameter': dict(BASE, name='t', required='b', schema='Schema', items='Items', collectionFormat='t', description='t', allowEmptyValue='b', **{'in': 't', '$ref': 't'}),
    'Items': dict(BASE, items='Items', collectionFormat='t'),
    'Header': dict(BASE, items='Items', collectionFormat='t', description='t'),
    'Response': dict(schema='Schema', headers='{Header', description='t', examples='r', **{'$ref': 't'}),
    'Schema': dict(BASE, items='Schema', maxProperties='i', minProperties='i', required='lt', allOf='[Schema', properties='{Schema', additionalProperties='Schema',
                   title='t', description='t', discriminator='t', readOnly='b', xml='XML', externalDocs='Docs', example='v', **{'$ref': 't'}),
    'XML': dict(name='t', namespace='t', prefix='t', attribute='b', wrapped='b'),
}
# values that say the same as an absent field
DEFAULT = {
    'collectionFormat': 'csv', 'allowEmptyValue': False, 'deprecated': False, 'additionalProperties': True,
}


def place(kind, d):
    """a description with one object of that kind"""
    r = doc({}, definitions={}, parameters={}, responses={}, securityDefinitions={})
    if kind == 'Swagger':
        r.update(d)
        for k in ('definitions', 'parameters', 'responses', 'securityDefinitions'):
            del r[k]
    elif kind == 'Info':
        r['info'] = d
    elif kind in ('Contact', 'License'):
        r['info'][kind.lower()] = d
    elif kind == 'Docs':
        r['externalDocs'] = d
        r['definitions'] = {'X': {'externalDocs': d}}
        r['tags'] = [{'name': 't', 'externalDocs': d}]
        r['paths'] = {'/p': {'get': {'externalDocs': d, 'responses': {}}}}
    elif kind == 'Tag':
        r['tags'] = [{'name': 'first'}, d]
    elif kind == 'SecurityScheme':
        r['securityDefinitions'] = {'s': d}
    elif kind == 'PathItem':
        r['paths'] = {'/p': d}
    elif kind == 'Operation':
        r['paths'] = {'/p': {'get': d, 'post': {'responses': {'200': {'description': 'ok'}}}}}
    elif kind == 'Parameter':
        r['parameters'] = {'P': d}
        r['paths'] = {'/p': {'parameters': [d], 'get': {'parameters': [d], 'responses': {}}}}
    elif kind == 'Items':
        r['parameters'] = {'P': {'name': 'p', 'in': 'query', 'type': 'array', 'items': d}}
    elif kind == 'Header':
        r['responses'] = {'R': {'description': '', 'headers': {'X-A': d}}}
    elif kind == 'Response':
        r['responses'] = {'R': d}
        r['paths'] = {'/p': {'get': {'responses': {'200': d, 'default': d}}}}
    elif kind == 'Schema':
        r['definitions'] = {'X': d, 'Y': {'properties': {'p': d}, 'allOf': [d], 'additionalProperties': d, 'items': d}}
    elif kind == 'XML':
        r['definitions'] = {'X': {'xml': d}}
    return r


def raw(S, tag, n):
    """a JSON value around symbolic leaves"""
    leaf = S.choice(tag + '-leaf', ['text', 'int', 'bool', 'null'])
    x = {'text': lambda: S.str(tag, 2), 'int': lambda: S.int(tag, -3, 3), 'bool': lambda: S.bool(tag), 'null': lambda: None}[leaf]()
    shape = S.choice(tag + '-shape', ['leaf', 'list', 'map', 'deep', 'empties'][:n])
    return {'leaf': lambda: x, 'list': lambda: [x, 0], 'map': lambda: {'a': x, 'b': 0},
            'deep': lambda: {'a': [{'b': [x, 0, False]}], 'c': {'d': ''}}, 'empties': lambda: {'a': [], 'b': {}, 'c': [[x]]}}[shape]()


def leaf(S, f, tag):
    if f == 't':
        return S.str(tag, 1)
    if f == 'b':
        return S.bool(tag)
    if f == 'i':
        return S.int(tag, 0, 3)
    if f == 'n':
        if S.choice(tag + '-kind', ['int', 'float']) == 'int':
            return S.int(tag, -2, 2)
        return S.float(tag, 1, -2, 2)
    if f == 'v':
        return raw(S, tag, 1)
    if f == 'lt':
        return [S.str(tag + '%d' % i, 1) for i in range(S.choice(tag + '-n', [1, 2]))]
    if f == 'lv':
        return [S.int(tag, -1, 1), raw(S, tag + 'v', 1)]
    if f == 'r':
        return {'a': S.str(tag, 1)}
    if f == 'lr':
        return [{'k': [S.str(tag, 1)], 'l': ['x']}]
    d = {} if f[-1] == '}' else dict(MINI.get(f.strip('[{'), {}))
    if S.choice(tag + '-empty', [False, True]):
        # an object without any field, or no entry
        return {} if f[0] == '{' or f[0] != '[' else []
    return [d, d] if f[0] == '[' else {'a': d, '200': d} if f[0] == '{' else d


MINI = {
    'Info': {'version': '', 'title': ''}, 'Docs': {'url': 'u'}, 'Contact': {'name': ''}, 'License': {'name': 'l'}, 'Tag': {'name': 'a'},
    'Operation': {'operationId': 'o', 'responses': {'200': {'description': ''}}}, 'PathItem': {'get': {'responses': {}}},
    'Parameter': {'name': 'p', 'in': 'query', 'type': 'string', 'required': False}, 'Items': {'type': 'string'},
    'Header': {'type': 'integer'}, 'Response': {'description': ''}, 'Schema': {'type': 'object'}, 'SecurityScheme': {'type': 'basic'}, 'XML': {'wrapped': False},
}


KINDS = sorted(SPEC)


KIND_OF = dict(Swagger='Swagger', Info='Info', Contact='Contact', License='License', ExternalDocumentation='Docs', Tag='Tag',
               SecurityScheme='SecurityScheme', PathItem='PathItem', Operation='Operation', Parameter='Parameter', Items='Items',
               Header='Header', Response='Response', Schema='Schema', XMLObject='XML', XML_='XML')


def names(o):
    return sorted(SPEC[KIND_OF[type(o).__name__]])


def equal(S, a, b):
    """field by field equality, independent of BaseObj.compare"""
    if isinstance(a, BaseObj) and isinstance(b, BaseObj):
        if type(a) is not type(b):
            return False
        return S.all(*[equal(S, getattr(a, n), getattr(b, n)) for n in names(a)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return S.all(*[S.all(k in b, equal(S, a[k], b[k])) if k in b else False for k in a])
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return S.all(*[equal(S, x, y) for x, y in zip(a, b)])
    for t in (BaseObj, dict, list, type(None)):
        if isinstance(a, t) or isinstance(b, t):
            return isinstance(a, t) and isinstance(b, t)
    return S.same(a, b)
