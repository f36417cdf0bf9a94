"""C27 upgraded Swagger 1.2 descriptions"""
from itertools import permutations
from symx.api import obligation
from pyswagger import errs
from harness.util import load as load_
from harness.v12 import ROOT, DIR, SEP, op12, res12, docs12, app12

LIMITS = ['1.0', '0', '-1', '9223372036854775807', '-9007199254740993', '0.0', '12']


def limit(S, name, typ):
    """(what the description says, the value it denotes)"""
    kind = S.choice(name, ['absent', 'int', 'text', 'known-text', 'float', 'big'])
    if kind == 'absent':
        return None, None
    if kind == 'int':
        v = S.int(name + '-i', -3, 3)
        return v, v
    if kind == 'big':
        v = S.choice(name + '-b', [2 ** 53 + 1, -2 ** 63, 2 ** 63 - 1]) if typ == 'integer' else 2 ** 31
        return v, v
    if kind == 'text':
        v = S.int(name + '-s', -20, 20)
        return str(v), v
    if kind == 'known-text':
        t = S.choice(name + '-t', LIMITS)
        return t, (int(t) if '.' not in t else int(float(t))) if typ == 'integer' else float(t)
    v = S.float(name + '-f', 1, -2, 2)
    return (v, v) if typ == 'number' else (None, None)


PRIMS = [('integer', 'int32'), ('integer', 'int64'), ('integer', None), ('number', 'float'), ('number', 'double'), ('number', None),
         ('string', None), ('string', 'byte'), ('string', 'date'), ('string', 'date-time'), ('boolean', None)]


@obligation('parameter', bounds='parameters of every primitive type and format and every location: required/absent, limits as integers -3..3, decimal text -20..20, floats in halves, texts and integers up to 64 bits; default and enum',
            cases=[dict(t=t, f=f, field=x) for t, f in PRIMS for x in (['limits', 'default', 'enum'] if t in ('integer', 'number') else ['default', 'enum']) if not (x == 'enum' and t == 'boolean')])
def parameter(S, t, f, field):
    where = S.choice('where', ['query', 'header', 'path', 'form'] if field == 'default' else ['query', 'form'])
    p = {'paramType': where, 'name': 'a', 'type': t, 'description': 'about'}
    if f:
        p['format'] = f
    req = S.choice('required', [None, True, False]) if field == 'default' else None
    if req is not None:
        p['required'] = req
    lo = hi = None
    if field == 'limits':
        which = S.choice('which', ['minimum', 'maximum'])
        says, v = limit(S, which, t)
        if which == 'minimum':
            lo = v
        else:
            hi = v
        if says is not None:
            p[which] = says
    dflt, has = None, False
    if field == 'default':
        has = S.choice('has', [True, False])
        if has:
            dflt = {'integer': lambda: S.int('d', -2, 2), 'number': lambda: S.float('d', 1, -2, 2), 'string': lambda: S.str('d', 2), 'boolean': lambda: S.bool('d')}[t]()
            p['defaultValue'] = dflt
    enum = None
    if field == 'enum':
        enum = [S.str('e0', 2), S.str('e1', 1)] if t == 'string' else [str(S.int('e0', -2, 2)), '7']
        p['enum'] = enum
    path = '/p/{a}' if where == 'path' else '/p'
    a = app12(docs12({'r': res12([(path, [op12(params=[p])])])}))
    ps = a.op['theOp'].parameters
    S.check(len(ps) == 1, 'another number of parameters')
    q = ps[0]
    S.check(q.name == 'a' and getattr(q, 'in') == {'form': 'formData'}.get(where, where), 'another name or location')
    S.check(q.type == t and q.format == f, 'another type or format')
    S.check(q.description == 'about', 'another description')
    S.check(q.required is req, 'another required flag')
    for n, v in (('minimum', lo), ('maximum', hi)):
        x = getattr(q, n)
        S.check(x is None if v is None else x is not None and S.all(x == v), 'another ' + n)
    S.check(S.same(q.default, dflt) if has else not q.is_set('default'), 'another default')
    S.check(S.same(q.enum, enum) if enum is not None else not q.enum, 'another enum')


@obligation('multiple', bounds='allowMultiple parameters and arrays of every primitive type in path, query and header: limits, enum, default, uniqueItems',
            cases=[dict(t=t, f=f, array=x) for t, f in PRIMS for x in (False, True)])
def multiple(S, t, f, array):
    where = S.choice('where', ['query', 'header', 'path'] if f is None else ['query'])
    p = {'paramType': where, 'name': 'a', 'required': True}
    item = dict(type=t, **({'format': f} if f else {}))
    lo = enum = None
    if array:
        p.update(type='array', items=item)
        u = S.choice('unique', [None, True, False])
        if u is not None:
            p['uniqueItems'] = u
    else:
        p.update(item, allowMultiple=True)
        u = None
        if t in ('integer', 'number') and S.choice('limited', [False, True]):
            says, lo = limit(S, 'minimum', t)
            if says is not None:
                p['minimum'] = says
        elif t == 'string' and S.choice('enum', [False, True]):
            enum = p['enum'] = [S.str('e', 2), 'b']
    dflt, has = None, S.choice('default', [False, True])
    if has:
        dflt = S.str('d', 2)
        p['defaultValue'] = [dflt] if array else dflt
    path = '/p/{a}' if where == 'path' else '/p'
    a = app12(docs12({'r': res12([(path, [op12(params=[p])])])}))
    q = a.op['theOp'].parameters[0]
    S.check(q.type == 'array' and q.collectionFormat == 'csv' and getattr(q, 'in') == where and q.required is True, 'not an array of that location')
    S.check(q.items.type == t and q.items.format == f, 'other items')
    S.check(q.uniqueItems is u, 'another uniqueItems')
    x = q.items.minimum
    S.check(x is None if lo is None else x is not None and S.all(x == lo), 'another minimum of the items')
    S.check(S.same(q.items.enum, enum) if enum is not None else not q.items.enum, 'another enum of the items')
    S.check(S.same(q.default, [dflt]) if has else not q.is_set('default'), 'another default')


TYPES = [('integer', 'int64'), ('string', None), ('boolean', None), ('number', 'double'), ('string', 'date-time'),
         ('model', None), ('ref', None), ('array', 'prim'), ('array', 'ref'), ('array', 'model'), ('void', None), ('array', 'text'), ('array', 'date'), ('array', 'byte')]


ITEMS = {'text': {'type': 'string'}, 'date': {'type': 'string', 'format': 'date'}, 'byte': {'type': 'string', 'format': 'byte'}}


def typed(S, kind, sub, ids, lim=None):
    """(1.2 fields, check of a converted schema)"""
    d, other = {}, ids
    if kind == 'model':
        d['type'] = other
    elif kind == 'ref':
        d['$ref'] = other
    elif kind == 'array':
        d['type'] = 'array'
        d['items'] = {'prim': {'type': 'integer', 'format': 'int32'}, 'ref': {'$ref': other}, 'model': {'type': other}}.get(sub) or ITEMS[sub]
        u = S.choice('unique', [None, True])
        if u:
            d['uniqueItems'] = True
    else:
        d['type'] = kind
        if sub:
            d['format'] = sub
    return d


def same_obj(a, b):
    """a reference might be a proxy of the object"""
    return a is not None and a.properties is b.properties


def is_typed(S, app, s, kind, sub, scope, ident, what):
    if kind == 'void':
        S.check(s is None, what + ' has a schema')
        return
    S.check(s is not None, what + ' has no schema')
    if kind in ('model', 'ref'):
        S.check(same_obj(s.ref_obj, app.root.definitions[scope + SEP + ident]), what + ' refers to another model')
    elif kind == 'array':
        S.check(s.type == 'array' and s.items is not None, what + ' is no array')
        if sub == 'prim':
            S.check(s.items.type == 'integer' and s.items.format == 'int32', what + ' has other items')
        elif sub in ITEMS:
            S.check(s.items.type == 'string' and s.items.format == ITEMS[sub].get('format'), what + ' has other items')
        else:
            S.check(same_obj(s.items.ref_obj, app.root.definitions[scope + SEP + ident]), what + ' has items of another model')
    else:
        S.check(s.type == kind and s.format == sub and not getattr(s, '$ref'), what + ' has another type')


IDS = ['M', 'a/b', 'a~b', 'M~1N', 'List[M]', 'A b']


@obligation('schema', bounds='body parameters, operation results and properties of every primitive, model, reference and array type, model names also with "/", "~" and brackets; two resources with models of the same name',
            cases=[dict(i=i, place=p) for i in range(len(TYPES)) for p in ('body', 'result', 'property') if not (p != 'result' and TYPES[i][0] == 'void')])
def schema(S, i, place):
    kind, sub = TYPES[i]
    ident = S.choice('id', IDS)
    scope = S.choice('resource', ['r', 'x'])
    d = typed(S, kind, sub, ident)
    m = {'id': ident, 'properties': {'own': {'type': 'string'}}}
    op, models = op12(), {ident: m}
    if place == 'body':
        op = op12(params=[dict(d, paramType='body', name='body', required=True)], method='POST')
    elif place == 'result':
        op = op12(method=S.choice('method', ['GET', 'PUT', 'POST', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH']), **d)
        if '$ref' in d:
            del op['type']
    else:
        m['properties']['p'] = d
    mine = res12([('/p', [op])], models=models)
    other = res12([('/q', [op12('otherOp')])], models={ident: {'id': ident, 'properties': {'foreign': {'type': 'integer'}}}})
    a = app12(docs12({'r': mine if scope == 'r' else other, 'x': other if scope == 'r' else mine}), strict=False)
    o = a.op['theOp']
    defs = a.root.definitions
    S.check(sorted(defs) == sorted(['r' + SEP + ident, 'x' + SEP + ident]), 'other models')
    want = defs[scope + SEP + ident]
    S.check('own' in want.properties and want.properties['own'].type == 'string' and 'foreign' not in want.properties, 'another model')
    if place == 'body':
        q = o.parameters[0]
        S.check(getattr(q, 'in') == 'body' and q.name == 'body' and q.required is True, 'another body')
        s = q.schema
    elif place == 'result':
        s = o.responses['default'].schema
    else:
        s = want.properties['p']
    is_typed(S, a, s, kind, sub, scope, ident, place)
    if kind == 'array':
        S.check(bool(s.uniqueItems) == bool(d.get('uniqueItems')), 'another uniqueItems')


@obligation('property', bounds='properties with limits (integers -3..3, texts, floats, 64 bit), enum, default and description; required, discriminator and description of the model',
            cases=[dict(t=t) for t in ('integer', 'number', 'string', 'boolean')])
def prop(S, t):
    p = {'type': t, 'description': 'about'}
    lo = hi = None
    if t in ('integer', 'number') and S.choice('which', ['limits', 'default']) == 'limits':
        which = S.choice('limit', ['minimum', 'maximum'])
        says, v = limit(S, which, t)
        if says is not None:
            p[which] = says
        lo, hi = (v, None) if which == 'minimum' else (None, v)
    else:
        if S.choice('has', [False, True]):
            p['defaultValue'] = {'integer': lambda: S.int('d', -2, 2), 'number': lambda: S.float('d', 1, -2, 2), 'string': lambda: S.str('d', 2), 'boolean': lambda: S.bool('d')}[t]()
        if t == 'string' and S.choice('enum', [False, True]):
            p['enum'] = [S.str('e', 2), 'b']
    m = {'id': 'M', 'properties': {'p': p, 'kind': {'type': 'string'}}}
    if S.choice('required', [False, True]):
        m['required'] = S.choice('which-required', [['p'], ['kind', 'p'], ['p', 'inherited'], ['kind']])
    if S.choice('disc', [False, True]):
        m['discriminator'] = 'kind'
        m['description'] = 'text'
    a = app12(docs12({'r': res12([('/p', [op12()])], models={'M': m})}))
    s = a.m['r', 'M']
    S.check(s is a.root.definitions['r' + SEP + 'M'] and s.name == 'M', 'the model is not found by its name')
    S.check(sorted(s.properties) == ['kind', 'p'], 'other properties')
    S.check(list(s.required) == m.get('required', []) and s.discriminator == m.get('discriminator') and s.description == m.get('description'), 'required, discriminator or description are changed')
    q = s.properties['p']
    S.check(q.type == t and q.description == 'about', 'another type or description')
    for n, v in (('minimum', lo), ('maximum', hi)):
        x = getattr(q, n)
        S.check(x is None if v is None else x is not None and S.all(x == v), 'another ' + n)
    S.check(S.same(q.default, p['defaultValue']) if 'defaultValue' in p else not q.is_set('default'), 'another default')
    S.check(S.same(q.enum, p['enum']) if 'enum' in p else not q.enum, 'another enum')


@obligation('inheritance', bounds='two or three models, in every order, one or two levels (the second with a discriminator of its own or not), one or two children; conversion of values by the child')
def inheritance(S):
    n = S.choice('shape', ['one', 'chain', 'two'])
    m = {'A': {'id': 'A', 'subTypes': ['B'], 'discriminator': 'kind', 'required': ['kind'], 'properties': {'kind': {'type': 'string'}, 'n': {'type': 'integer', 'maximum': '5'}}},
         'B': {'id': 'B', 'properties': {'b': {'type': 'string'}}}}
    if n == 'chain':
        m['B']['subTypes'] = ['C']
        if S.choice('own', [False, True]):
            m['B'].update(discriminator='sort', required=['sort'])
            m['B']['properties']['sort'] = {'type': 'string'}
    elif n == 'two':
        m['A']['subTypes'] = ['B', 'C']
    if n != 'one':
        m['C'] = {'id': 'C', 'properties': {'c': {'type': 'string'}}}
    names = S.choice('order', list(map(list, permutations(sorted(m)))))
    models = {}
    for x in names:
        models[x] = m[x]
    a = app12(docs12({'r': res12([('/p', [op12(type='B')])], models=models)}))
    d = a.root.definitions
    A = d['r' + SEP + 'A']
    parent = {'B': A}
    if n != 'one':
        parent['C'] = d['r' + SEP + 'B'] if n == 'chain' else A
    S.check(not A.allOf, 'the parent inherits')
    for c, p in parent.items():
        s = d['r' + SEP + c]
        S.check(len(s.allOf) == 1 and same_obj(s.allOf[0].ref_obj, p), 'another parent of ' + c)
    v = S.int('v', 3, 7)
    last = 'B' if n == 'one' else 'C'
    given = {'n': v, last.lower(): 'x'}
    if n == 'chain':
        given['b'] = 'y'
    S.check(d['r' + SEP + 'A'].discriminator == 'kind' and d['r' + SEP + 'B'].discriminator == m['B'].get('discriminator'), 'another discriminator')
    e, r = S.fn_raises(errs.ValidationError, lambda: d['r' + SEP + last]._prim_(given, a.prim_factory))
    S.check((e is None) == S.all(v <= 5), 'the limit of the parent is not applied by ' + last)
    if e is None:
        S.check(S.all(S.same(r['n'], v), r[last.lower()] == 'x', r['kind'] == last), 'another value')


BASES = ['http://svc.x/v1', 'https://svc.x:8080', 'http://svc.x/v1/deep', '/v1', 'http://svc.x']


@obligation('operation', bounds='two resources with one or two operations each, in the same or different paths, base URLs with host, port, path or none; any method, nickname of any character but the separator, summary, notes, deprecated',
            cases=[dict(base=b, same=s) for b in range(len(BASES)) for s in (False, True)])
def operation(S, base, same):
    base = BASES[base]
    method = S.choice('method', ['GET', 'PUT', 'POST', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD', 'get'] if base == BASES[0] else ['GET', 'PUT', 'DELETE'])
    text = S.str('text', 1, 1)
    dep = S.choice('deprecated', [None, 'true', 'false']) if method == 'GET' else None
    k = dict(summary=text, notes=text)
    if dep:
        k['deprecated'] = dep
    path = S.choice('path', ['/p', '/p/{id}/x', '/p.json', '/a/b'])
    second = path if same else path + '/more'
    other = 'PUT' if method != 'PUT' else 'GET'
    r = res12([(path, [op12('one', method, **k)]), (second + ('' if not same else '/'), [op12('two', other)])], base=base)
    x = res12([(second, [op12('one', 'DELETE' if method != 'DELETE' else 'POST')])], base=base)
    if same:
        r['apis'].append({'path': path, 'operations': [op12('three', other)]})
    a = app12(docs12({'r': r, 'x': x}))
    o = a.op['r', 'one']
    S.check(o is a.op['r' + SEP + 'one'], 'the operation has two identities')
    S.check(a.op['x', 'one'] is not o and a.op['x', 'one'].method in ('delete', 'post'), 'operations of two resources are mixed up')
    e, _ = S.fn_raises(ValueError, lambda: a.op['one'])
    S.check(e is not None, 'an ambiguous nickname is accepted')
    S.check(o.method == method.lower() and o.operationId == 'one' and o.tags == ['r'], 'another method, nickname or resource')
    S.check(S.all(S.same(o.summary, text), S.same(o.description, text)), 'another summary or description')
    S.check(o.deprecated == (dep == 'true'), 'another deprecated flag')
    host = base.split('//')[1].split('/')[0] if '//' in base else 'h.x'
    full = base.split(host)[1] if '//' in base else base
    S.check(o.url == '//' + host + full + path and (o.base_path or '') + o.path == full + path, 'another URL or path')
    S.check(a.op['two'].url == '//' + host + full + second + ('/' if same else '') and a.op['two'].method == other.lower(), 'another URL of the second operation')
    if same:
        S.check(a.op['three'].url == o.url, 'another URL of the third operation')
    S.check([t.name for t in a.root.tags] in (['r', 'x'], ['x', 'r']), 'other tags')
    req, _ = o(**({}))
    if '{' not in path:
        req.prepare(scheme='http')
        S.check(req.url == 'http://' + host + full + path and req.method == method.lower(), 'the request goes somewhere else')


@obligation('media', bounds='consumes and produces declared by the resource, by the operation or by both; two resources')
def media(S):
    def some(tag):
        return S.choice(tag, [None, ['application/json'], ['text/plain', 'text/json']])
    f = S.choice('field', ['consumes', 'produces'])
    r, o = some('resource'), some('operation')
    op = op12()
    if o is not None:
        op[f] = o
    res = res12([('/p', [op])])
    if r is not None:
        res[f] = r
    x = res12([('/q', [op12('plain')])])
    a = app12(docs12({'r': res, 'x': x}))
    S.check(list(getattr(a.op['theOp'], f)) == (o if o is not None else r or []), 'another ' + f)
    S.check(not getattr(a.op['plain'], f), 'the setting of another resource is used')


@obligation('authorization', bounds='basic, apiKey and oauth2 (implicit, authorization code, both) with names and keys of up to 2 characters, scopes; required by the operation, by the resource, by both, cleared by the operation')
def authorization(S):
    kind = S.choice('type', ['basicAuth', 'apiKey', 'implicit', 'code', 'both'])
    text = S.str('text', 2, 1)
    if kind == 'basicAuth':
        d = {'type': 'basicAuth'}
    elif kind == 'apiKey':
        d = {'type': 'apiKey', 'passAs': S.choice('passAs', ['header', 'query']), 'keyname': text}
    else:
        g = {}
        if kind != 'code':
            g['implicit'] = {'loginEndpoint': {'url': 'http://login/x'}, 'tokenName': 'access_token'}
        if kind != 'implicit':
            g['authorization_code'] = {'tokenRequestEndpoint': {'url': 'http://request/x', 'clientIdName': 'i', 'clientSecretName': 's'}, 'tokenEndpoint': {'url': 'http://token/x', 'tokenName': 'c'}}
        d = {'type': 'oauth2', 'grantTypes': g, 'scopes': [{'scope': 'a', 'description': text}, {'scope': 'b'}]}
    name = S.choice('name', ['auth', 'a/b', 'a~b'])
    n = S.choice('scopes', [0, 1, 2]) if d['type'] == 'oauth2' else 0
    scopes = [{'scope': 'a', 'description': 'about'}, {'scope': 'b', 'description': ''}][:n]
    at = S.choice('at', ['operation', 'resource', 'both', 'none', 'cleared'])
    op = op12()
    res = res12([('/p', [op])])
    if at in ('operation', 'both'):
        op['authorizations'] = {name: scopes}
    if at == 'cleared':
        op['authorizations'] = {}
    if at in ('resource', 'cleared'):
        res['authorizations'] = {name: scopes}
    if at == 'both':
        res['authorizations'] = {'other': []}
    a = app12(docs12({'r': res}, authorizations={name: d, 'other': {'type': 'basicAuth'}}))
    S.check(sorted(a.root.securityDefinitions) == sorted([name, 'other']), 'other security definitions')
    s = a.root.securityDefinitions[name]
    if kind == 'basicAuth':
        S.check(s.type == 'basic', 'another type')
    elif kind == 'apiKey':
        S.check(s.type == 'apiKey' and getattr(s, 'in') == d['passAs'], 'another type or place')
        S.check(S.same(s.name, text), 'another key name')
    else:
        S.check(s.type == 'oauth2', 'another type')
        S.check(s.authorizationUrl == (None if kind == 'code' else 'http://login/x') and s.tokenUrl == (None if kind == 'implicit' else 'http://token/x'), 'another URL')
        S.check(sorted(s.scopes) == ['a', 'b'] and S.same(s.scopes['a'], text), 'other scopes')
        S.check(s.flow == ('accessCode' if kind == 'code' else 'implicit'), 'another flow', known=('access-code', kind == 'code'))
    want = [{name: ['a', 'b'][:n]}] if at in ('operation', 'resource', 'both') else []
    S.check(list(a.op['theOp'].security or []) == want, 'other security requirements', known=('auth-cleared', at == 'cleared'))


@obligation('document', bounds='info absent or with any subset of its fields; resources without operations or models; resource names with ".", "-" or nested in folders')
def document(S):
    text = S.str('text', 1)
    info = {'title': 't', 'description': text}
    if S.choice('info', ['present', 'absent']) == 'absent':
        info = None
        ops = S.choice('operations', [True, False])
        name = S.choice('name', ['r', 'a-b', 'a.b', 'v1/r'])
    else:
        for k in ('termsOfServiceUrl', 'contact', 'license', 'licenseUrl'):
            if S.choice(k, [False, True]):
                info[k] = k
        ops, name = S.choice('operations', [True, False]), 'r'
    d = docs12({name: res12([('/p', [op12()])] if ops else [])}, info=info)
    a = app12(d)
    i = a.root.info
    S.check(i is not None and i.version == '1.0', 'another version')
    if info is not None:
        S.check(S.all(i.title == 't', S.same(i.description or '', text)), 'another title or description')
        S.check(i.termsOfService == info.get('termsOfServiceUrl'), 'other terms of service')
        S.check((i.contact.email if i.contact else None) == info.get('contact'), 'another contact')
        S.check((i.license.name if i.license else None) == info.get('license') and (i.license.url if i.license else None) == info.get('licenseUrl'), 'another license')
    if ops:
        S.check(a.op['theOp'].path == '/v1/p', 'the operation is not reachable')
        S.check(a.op['theOp'].tags == [name] and a.op[name, 'theOp'] is a.op['theOp'], 'the operation has another resource')
    else:
        S.check(len(a.op) == 0 and not a.root.paths, 'operations are invented')
