"""C32 invalid descriptions are reported, valid ones are not"""
from symx.api import obligation
from pyswagger import errs, App
from pyswagger.spec.base import BaseObj, Context, FieldMeta
from pyswagger.resolve import Resolver
from harness.util import load, app, doc, getter, URL
from harness.v12 import ROOT, op12, res12, docs12


def load12(d):
    return load(d, ROOT)


def judge(S, a, want, prepare=True):
    """want: (path, kind) -> number of violated rules"""
    got = {}
    for (path, kind), msg in a.validate(strict=False):
        S.check(isinstance(msg, str) and len(msg) > 0, 'an error without message')
        got[(path, kind)] = got.get((path, kind), 0) + 1
    S.observe('errors', sorted(got.items()))
    want = dict((k, n) for k, n in want.items() if n)
    for k in want:
        S.check(k in got, 'an invalid %s is not reported' % k[1])
        S.check(got[k] == want[k], 'another number of errors than violated rules of a %s' % k[1])
    for k in got:
        S.check(k in want, 'a valid %s is reported' % k[1])
    S.reach('invalid' if want else 'valid')
    strict(S, a.validate, bool(want), 'validate')
    if prepare or want:
        strict(S, a.prepare, bool(want), 'prepare')


def strict(S, fn, invalid, what):
    e, _ = S.fn_raises(errs.ValidationError, fn)
    S.check((e is not None) == invalid, 'strict %s %s' % (what, 'accepts an invalid description' if invalid else 'refuses a valid description'))




def given(d, k):
    return d.get(k) is not None


def datatype(d):
    n = 0
    if not given(d, 'type') and not given(d, '$ref'):
        n += 1
    array = given(d, 'type') and d['type'] == 'array'
    if bool(array) != given(d, 'items'):
        n += 1
    if given(d, 'uniqueItems') and not array:
        n += 1
    return n


def missing(d, *ks):
    return len([k for k in ks if not given(d, k)])


def parameter(d, consumes):
    n = datatype(d) + missing(d, 'paramType', 'name')
    where, typ = d.get('paramType'), d.get('type')
    if d.get('allowMultiple'):
        if where is None or not (where == 'path' or where == 'query' or where == 'header'):
            n += 1
        if typ is not None and typ == 'array':
            n += 1
    if where is not None and where == 'body' and not (given(d, 'name') and (d['name'] == '' or d['name'] == 'body')):
        n += 1
    if typ is not None and typ == 'File':
        if where is None or not where == 'form':
            n += 1
        if 'multipart/form-data' not in consumes:
            n += 1
    if typ is not None and typ == 'void':
        n += 1
    return n


def prop(d):
    return datatype(d) + (1 if given(d, 'type') and d['type'] == 'void' else 0)


def item(d):
    return 1 if given(d, 'type') and d['type'] == 'void' else 0


WHERE = ['path', 'query', 'header', 'form', 'body']
OP = '#/apis/x/apis/theOp'


def one_op(op, **k):
    return docs12({'x': res12([('/a', [op])], **k.pop('res', {}))}, **k)


@obligation('parameter', bounds='a parameter with a symbolic type and location (texts of up to 6 characters, or absent), name absent, empty, "body" or any of up to 2 characters; items, uniqueItems, $ref and allowMultiple absent or present',
            cases=[dict(vary=v) for v in ('location', 'name', 'array', 'multiple')])
def param_(S, vary):
    p = {'paramType': 'query', 'name': 'n', 'type': 'string'}
    if vary == 'location':
        p['paramType'] = S.choice('in', [None, 'text']) and S.str('location', 6)
        if S.choice('multiple', [False, True]):
            p['allowMultiple'] = True
    elif vary == 'name':
        p['paramType'] = S.choice('in', WHERE)
        p['name'] = S.choice('name', [None, 'text']) and S.str('n', 4)
    elif vary == 'array':
        p['type'] = S.choice('type', [None, 'text']) and S.str('t', 6)
        S.assume(p['type'] is None or not p['type'] == 'File')
        p['items'] = S.choice('items', [None, {'type': 'string'}, {'$ref': 'M'}, {'type': 'void'}])
        p['uniqueItems'] = S.choice('unique', [None, False, True])
        p['$ref'] = S.choice('ref', [None, 'M'])
    else:
        p['paramType'] = S.choice('in', WHERE)
        p['name'] = 'body'
        p['allowMultiple'] = S.choice('multiple', [None, False, True])
        p['type'] = S.choice('type', ['string', 'array'])
        if S.choice('items', [False, True]):
            p['items'] = {'type': 'string'}
    p = dict((k, v) for k, v in p.items() if v is not None)
    want = {(OP + '/parameters/1', 'Parameter'): parameter(p, [])}
    if given(p, 'items'):
        want[(OP + '/parameters/1/items', 'Items')] = item(p['items'])
    a = load12(one_op(op12(params=[{'paramType': 'query', 'name': 'ok', 'type': 'integer'}, p])))
    judge(S, a, want, prepare=False)


@obligation('file', bounds='a File parameter (or one of another type) at every location; consumes of the operation and of the API declaration absent, empty or with up to two media types, one of them symbolic up to 1 character beside multipart/form-data',
            cases=[dict(where=w, t=t) for w in WHERE for t in ('File', 'string')])
def file_(S, where, t):
    lists = [None, [], ['multipart/form-data'], ['a/b', 'multipart/form-data'], ['a/b'], 'symbolic']

    def consumes(tag):
        c = S.choice(tag, lists)
        return ['multipart/form-dat' + S.str(tag + '-c', 1)] if c == 'symbolic' else c
    op, res = consumes('op'), consumes('res')
    p = {'paramType': where, 'name': 'body', 'type': t}
    o = op12(params=[p], method='POST')
    if op is not None:
        o['consumes'] = op
    # an empty list counts as none
    effective = op or res or []
    a = load12(one_op(o, res={} if res is None else {'consumes': res}))
    judge(S, a, {(OP + '/parameters/0', 'Parameter'): parameter(p, effective)})


@obligation('property', bounds='a property of a model, or the return type of an operation, with a symbolic type (text of up to 6 characters, or absent), $ref, items and uniqueItems',
            cases=[dict(where=w) for w in ('property', 'operation')])
def property_(S, where):
    d = {'type': S.choice('type', [None, 'text']) and S.str('t', 6),
         'items': S.choice('items', [None, {'type': 'string'}, {'$ref': 'M'}, {'type': S.str('it', 4)}]),
         'uniqueItems': S.choice('unique', [None, False, True]), '$ref': S.choice('ref', [None, 'M'])}
    d = dict((k, v) for k, v in d.items() if v is not None)
    if where == 'property':
        path, kind, n = '#/apis/x/models/M/properties/p', 'Property', prop(d)
        a = load12(one_op(op12(), res={'models': {'M': {'id': 'M', 'properties': {'ok': {'type': 'integer'}, 'p': d}}}}))
    else:
        path, kind, n = OP, 'Operation', datatype(d)
        o = op12()
        del o['type']
        o.update(d)
        a = load12(one_op(o))
    want = {(path, kind): n}
    if given(d, 'items'):
        want[(path + '/items', 'Items')] = item(d['items'])
    judge(S, a, want, prepare=False)


@obligation('authorization', bounds='an authorization with a symbolic type (text of up to 6 characters, or basicAuth, or absent), passAs and keyname absent, empty or any text of 1 character, grant types with every subset of their parts',
            cases=[dict(part=p) for p in ('key', 'grants', 'implicit', 'code', 'scope')])
def authorization(S, part):
    want, d = {}, {'type': 'oauth2', 'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}, 'tokenName': 't'}}}
    path = '#/authorizations/A'
    if part == 'key':
        d = {'type': S.choice('type', [None, 'text', 'basicAuth'])}
        if d['type'] == 'text':
            d['type'] = S.str('t', 6)
        for k in ('passAs', 'keyname'):
            if S.bool('has-' + k):
                d[k] = S.str(k, 1)
        if S.bool('grants'):
            d['grantTypes'] = {'implicit': {'loginEndpoint': {'url': 'u'}}}
        d = dict((k, v) for k, v in d.items() if v is not None)
        n = missing(d, 'type')
        if given(d, 'type') and d['type'] == 'apiKey':
            n += len([k for k in ('passAs', 'keyname') if not given(d, k) or d[k] == ''])
        elif given(d, 'type') and d['type'] == 'oauth2':
            n += missing(d, 'grantTypes')
        want[(path, 'Authorization')] = n
    elif part == 'grants':
        g = {}
        if S.bool('implicit'):
            g['implicit'] = {'loginEndpoint': {'url': 'u'}}
        if S.bool('code'):
            g['authorization_code'] = {'tokenRequestEndpoint': {'url': 'a'}, 'tokenEndpoint': {'url': 'b'}}
        d['grantTypes'] = g
        want[(path + '/grantTypes', 'GrantType')] = 0 if g else 1
    elif part == 'implicit':
        i = {}
        if S.bool('login'):
            i['loginEndpoint'] = {} if S.bool('no-url') else {'url': S.str('url', 1)}
            want[(path + '/grantTypes/implicit/loginEndpoint', 'LoginEndpoint')] = missing(i['loginEndpoint'], 'url')
        d['grantTypes'] = {'implicit': i}
        want[(path + '/grantTypes/implicit', 'Implicit')] = missing(i, 'loginEndpoint')
    elif part == 'code':
        c = {}
        for k, kind in (('tokenRequestEndpoint', 'TokenRequestEndpoint'), ('tokenEndpoint', 'TokenEndpoint')):
            if S.bool(k):
                c[k] = {} if S.bool('no-url-' + k) else {'url': S.str('url-' + k, 1)}
                want[(path + '/grantTypes/authorization_code/' + k, kind)] = missing(c[k], 'url')
        d['grantTypes'] = {'authorization_code': c}
        want[(path + '/grantTypes/authorization_code', 'AuthorizationCode')] = missing(c, 'tokenRequestEndpoint', 'tokenEndpoint')
    else:
        d['scopes'] = []
        for i in (0, 1):
            s = {'description': 'd'}
            if S.bool('scope%d' % i):
                s['scope'] = S.str('s%d' % i, 1)
            d['scopes'].append(s)
            want[(path + '/scopes/%d' % i, 'Scope')] = missing(s, 'scope')
    a = load12(one_op(op12(), authorizations={'A': d}))
    judge(S, a, want, prepare=False)


@obligation('required-auth', bounds='an operation requiring up to two authorizations with symbolic names of 1 character, of all three types, unknown or declared, with no, a named or an unnamed scope', cases=[dict(n=1), dict(n=2)])
def required_auth(S, n):
    declared = {'k': {'type': 'apiKey', 'passAs': 'header', 'keyname': 'X'}, 'b': {'type': 'basicAuth'},
                'o': {'type': 'oauth2', 'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}}}}}
    auths, want, bad = {}, {}, 0
    for i in range(n):
        name = S.str('name%d' % i, 1, 1)
        if name in auths:
            return
        scopes = S.choice('scopes%d' % i, [[], [{'scope': 's', 'description': ''}], [{'description': 'd'}]])
        auths[name] = scopes
        if len(scopes):
            want[('#/x/%d' % i, name)] = (scopes, name)
        kind = [declared[k]['type'] for k in declared if k == name]
        if not kind:
            bad += 1
        elif kind[0] != 'oauth2' and scopes:
            bad += 1
    nameless = sum([1 for s, _ in want.values() if 'scope' not in s[0]])
    a = load12(one_op(op12(authorizations=auths), authorizations=declared))
    found = a.validate(strict=False)
    at_op = [e for e in found if e[0] == (OP, 'Operation')]
    below = [e for e in found if e[0][1] == 'Authorizations']
    S.check(len(at_op) == bad, 'unknown authorizations, or scopes of those without any, are not reported exactly')
    S.check(len(below) == nameless, 'scopes without name are not reported exactly')
    S.check(len(found) == len(at_op) + len(below), 'other errors')
    S.reach('invalid' if found else 'valid')
    strict(S, a.validate, bool(bad or nameless), 'validate')


@obligation('required', bounds='presence of every checked required field (symbolic text of up to 1 character, 0 or false included) of each 1.2 object',
            cases=[dict(kind=k) for k in ('Info', 'Operation', 'ResponseMessage', 'Model', 'Resource', 'Parameter')])
def required(S, kind):
    def has(*ks):
        return dict((k, S.str(k, 1)) for k in ks if S.bool('has-' + k))
    want, top, res = {}, {}, {}
    op = op12()
    if kind == 'Info':
        top['info'] = has('title', 'description')
        want[('#/info', kind)] = missing(top['info'], 'title', 'description')
    elif kind == 'Operation':
        del op['method']
        op.update(has('method'))
        want[(OP, kind)] = missing(op, 'method')
    elif kind == 'ResponseMessage':
        m = has('message')
        if S.bool('has-code'):
            m['code'] = S.int('code', 0, 600)
        op['responseMessages'] = [{'code': 404, 'message': 'no'}, m]
        want[(OP + '/responseMessages/1', kind)] = missing(m, 'code', 'message')
    elif kind == 'Model':
        m = dict(has('id'), properties={})
        res['models'] = {'N': {'id': 'N', 'properties': {}}, 'M': m}
        want[('#/apis/x/models/M', kind)] = missing(m, 'id')
    elif kind == 'Parameter':
        p = dict(has('paramType', 'name'), type='string')
        op['parameters'] = [p]
        want[(OP + '/parameters/0', kind)] = missing(p, 'paramType', 'name')
    d = one_op(op, res=res, **top)
    if kind == 'Resource':
        r = d['http://h.x/api/x']
        for k in ('swaggerVersion', 'basePath'):
            if not S.bool('has-' + k):
                del r[k]
        want[('#/apis/x', kind)] = missing(r, 'swaggerVersion', 'basePath')
    judge(S, load12(d), want, prepare=False)


# ---------------------------------------------------------------- 2.0
PLACES = {
    'definition': lambda s: (doc({}, definitions={'A': {'type': 'string'}, 'X': s}), '#/definitions/X'),
    'property': lambda s: (doc({}, definitions={'X': {'properties': {'a/b': s, 'p': {'type': 'string'}}}}), '#/definitions/X/properties/a~1b'),
    'items': lambda s: (doc({}, definitions={'X': {'type': 'array', 'items': {'type': 'array', 'items': s}}}), '#/definitions/X/items/items'),
    'additional': lambda s: (doc({}, definitions={'X': {'additionalProperties': s}}), '#/definitions/X/additionalProperties'),
    'allOf': lambda s: (doc({}, definitions={'X': {'allOf': [{'type': 'object'}, s]}}), '#/definitions/X/allOf/1'),
    'body': lambda s: (doc({'/p': {'post': {'responses': {}, 'parameters': [{'name': 'b', 'in': 'body', 'schema': s}]}}}), '#/paths/~1p/post/parameters/0/schema'),
    'shared-body': lambda s: (doc({'/p': {'parameters': [{'name': 'b', 'in': 'body', 'schema': s}], 'post': {'responses': {}}}}), '#/paths/~1p/parameters/0/schema'),
    'parameters': lambda s: (doc({}, parameters={'P': {'name': 'b', 'in': 'body', 'schema': s}}), '#/parameters/P/schema'),
    'responses': lambda s: (doc({}, responses={'R': {'description': '', 'schema': s}}), '#/responses/R/schema'),
    'response': lambda s: (doc({'/p': {'get': {'responses': {'200': {'description': ''}, 'default': {'description': '', 'schema': s}}}}}), '#/paths/~1p/get/responses/default/schema'),
}


@obligation('read-only', bounds='a schema at each of ten places: two properties with symbolic names of 1 character, readOnly absent, false or true; up to two (for a definition: three) required names of 1 character; the schema with and without a type',
            cases=[dict(where='definition', n=3)] + [dict(where=w, n=n) for w in sorted(PLACES) for n in ((1, 2) if w in ('definition', 'response') else (1,))], thorough=[dict(where=w, n=2) for w in sorted(PLACES)])
def read_only(S, where, n):
    a, b = (S.str('a', 1, 1, 'abc'), S.str('b', 1, 1, 'abc')) if n < 3 else ('a', 'b')
    S.assume(not a == b)
    props = {}
    for k, tag in ((a, 'A'), (b, 'B')):
        props[k] = {'type': 'string'}
        ro = S.choice('read-only' + tag, [None, False, True])
        if ro is not None:
            props[k]['readOnly'] = ro
    req = [S.str('r%d' % i, 1, 1, 'abcd') for i in range(n)]
    bad = 0
    for r in req:
        for k in props:
            if k == r and props[k].get('readOnly'):
                bad += 1
    s = {'properties': props, 'required': req}
    typ = S.choice('type', [None, 'object', 'text'] if n == 1 else [None, 'object'])
    if typ is not None:
        s['type'] = S.str('t', 2) if typ == 'text' else typ
    d, path = PLACES[where](s)
    judge(S, load(d), {(path, 'Schema'): bad})
    lax = load(d)
    lax.prepare(strict=False)
    S.check(lax.root is not None, 'preparation that is not strict fails')


class Thing(FieldMeta('Base', (BaseObj,), {'__swagger_fields__': {'x': None}})):
    pass


class ThingContext(Context):
    __swagger_ref_object__ = Thing


@obligation('version', bounds='swagger or swaggerVersion a text of up to 4 characters of "0123.", or absent with a parser for another kind of object', cases=[dict(key=k) for k in ('swagger', 'swaggerVersion', 'parser')])
def version(S, key):
    v = S.str('v', 4, 0, '0123.')
    if key == 'parser':
        Thing.__swagger_version__ = v
        S.assume(not v == '1.2' and not v == '2.0')
        d, ok, parser = {'x': 1}, False, ThingContext
    else:
        S.assume(not v == ('1.2' if key == 'swagger' else '2.0'))
        d = {key: v, 'info': {'title': 't', 'version': ''}, 'paths': {}} if key == 'swagger' else {key: v, 'apiVersion': '1', 'apis': []}
        ok, parser = v == ('2.0' if key == 'swagger' else '1.2'), None
    e, a = S.fn_raises(NotImplementedError, App.load, URL, resolver=Resolver(default_getter=getter({URL: d}, [])), parser=parser)
    S.check((e is None) == ok, 'a description of another version is not refused as such, or one of a supported version is')
    if ok:
        S.reach('supported')
        S.check(a.version == v, 'another version is named')
    else:
        S.reach('refused')
