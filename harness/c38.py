"""C38 Apps stay apart from each other and from what they were loaded from"""
import json
from symx.api import obligation
from pyswagger import App, Security
from pyswagger.getter import DictGetter
from pyswagger import resolve as resolve_module
from pyswagger.errs import ValidationError
from pyswagger.primitives import Primitive, MimeCodec
from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0.parser import SchemaContext
from harness.util import getter, doc, URL
from harness.v12 import docs12, res12, op12, ROOT

U = 'http://h.x/api/other.json'
A, B = 'http://a.x/api.json', 'http://b.x/api.json'


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def spoil(x):
    """change everything within x"""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x['spoiled'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append('spoiled')


def description(m, name='t', host='h.x', shared=None):
    return {
        'swagger': '2.0', 'info': {'version': '1', 'title': name, 'contact': {'name': 'c'}}, 'host': host, 'basePath': '/b',
        'tags': [{'name': 'x'}], 'security': [{'key': []}], 'securityDefinitions': {'key': {'type': 'apiKey', 'name': 'k', 'in': 'query'}},
        'parameters': {'P': {'name': 'p', 'in': 'query', 'type': 'integer', 'maximum': m}},
        'definitions': {'M': {'type': 'object', 'required': ['x'], 'properties': {
            'x': {'type': 'integer', 'maximum': m}, 'free': {'default': {'k': [1]}}, 'list': {'default': [[1]]}, 'l': {'type': 'array', 'items': {'type': 'integer'}, 'default': [2]},
            'open': {'type': 'object', 'additionalProperties': True, 'default': {'k': [3]}}}},
            'R': {'$ref': shared + '#/definitions/S'} if shared else {'type': 'integer', 'enum': [1, 2]}},
        'paths': {'/p': {'parameters': [{'$ref': '#/parameters/P'}],
                         'post': {'operationId': 'theOp', 'tags': ['x'], 'consumes': ['application/json'], 'parameters': [{'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/M'}}],
                                  'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/M'}, 'headers': {'H': {'type': 'array', 'items': {'type': 'integer'}, 'default': [1]}}}}},
                         'get': {'operationId': 'bare', 'responses': {'200': {'description': 'd'}}}},
                  '/q': {'$ref': '#/paths/~1r'},
                  '/r': {'put': {'parameters': [{'$ref': '#/parameters/P'}], 'responses': {'default': {'description': 'd'}}}}}}


def load(docs, url, resolver=None, **k):
    if resolver is None:
        resolver = Resolver(default_getter=getter(docs, []))
    a = App.load(url, resolver=resolver, **k)
    return a


def uses(S, a, m, i, tag):
    """an App whose limit is m behaves by it"""
    e, r = S.fn_raises(ValidationError, lambda: a.op['theOp'](p=i, b={'x': i}))
    S.check(S.iff(e is None, i <= m), tag + ': the limit is another one')
    o = a.op['bare']
    e, r2 = S.fn_raises(ValidationError, lambda: o(p=i))
    S.check(S.iff(e is None, i <= m), tag + ': the limit of the path is another one')
    if e is None:
        S.check(S.same(list(r2[0].query), [('p', str(i))]), tag + ': the argument is lost or doubled')
        r2[0].prepare()
        S.check(r2[0].data is None and list(r2[0].header.items()) == [], tag + ': the request holds something of another one')
    if r is not None:
        req, resp = r
        req.prepare()
        S.check(S.same(json.loads(req.data), {'x': i, 'free': {'k': [1]}, 'list': [[1]], 'l': [2], 'open': {'k': [3]}}), tag + ': the body is another one')
        resp.apply_with(200, '{"x": 0}', {'H': '1'})
        S.check(S.same(plain(resp.data), {'x': 0, 'free': {'k': [1]}, 'list': [[1]], 'l': [2], 'open': {'k': [3]}}), tag + ': the data of the response are others')
        S.check(list(resp.header['H'][0]) == [1], tag + ': the header is another one')


@obligation('document', bounds='a description given as dict (2.0, with defaults, references, settings; any limit in 0..9): loading, preparing, calling (integers 0..9), dumping, and changing everything that is returned',
            cases=[dict(what=w) for w in ('load', 'dump', 'request', 'response', 'reference', 'produced')])
def document(S, what):
    m, i = S.int('m', 0, 9), S.int('i', 0, 9)
    d = description(m, shared=U)
    d['definitions'].update(Free={'default': {'k': [i]}}, Open={'type': 'object', 'additionalProperties': True, 'default': {'k': [i]}}, List={'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer'}}, 'default': [[i]]})
    other = {'definitions': {'S': {'type': 'object', 'properties': {'y': {'type': 'integer', 'default': i}}, 'example': {'k': [1]}}}}
    before = plain(d), plain(other)
    docs = {URL: d, U: other}
    a = load(docs, URL)
    a.prepare()
    S.check(S.same((plain(d), plain(other)), before), 'loading changes the document')
    dump = plain(a.dump())
    uses(S, a, m, i, 'first')
    if what == 'dump':
        spoil(a.dump())
    elif what == 'request':
        req, _ = a.op['theOp'](p=m, b={'x': m})
        req.prepare()
        spoil(req._p['body'])
        spoil(req.query)
        req.header['Spoiled'] = '1'
    elif what == 'response':
        _, resp = a.op['theOp'](p=m, b={'x': m})
        resp.apply_with(200, '{"x": 0}', {'H': '1'})
        spoil(resp.data)
        spoil(resp.header['H'])
    elif what == 'reference':
        s = a.resolve(U + '#/definitions/S', SchemaContext)
        S.check(S.same(plain(s.dump()), {'type': 'object', 'properties': {'y': {'type': 'integer', 'default': i}}, 'example': {'k': [1]}}), 'the referenced schema is another one')
        spoil(s.dump())
    elif what == 'produced':
        spoil(a.prim_factory.produce(a.resolve('#/definitions/M'), {'x': m}))
        for n in ('Free', 'Open', 'List'):
            v = a.prim_factory.produce(a.resolve('#/definitions/' + n), None)
            S.check(S.same(plain(v), {'Free': {'k': [i]}, 'Open': {'k': [i]}, 'List': [[i]]}[n]), 'another default')
            spoil(v)
            S.check(S.same(plain(a.prim_factory.produce(a.resolve('#/definitions/' + n), None)), {'Free': {'k': [i]}, 'Open': {'k': [i]}, 'List': [[i]]}[n]), 'the default is changed')
    uses(S, a, m, i, 'again')
    S.check(S.same(plain(a.dump()), dump), 'the description is changed')
    S.check(S.same((plain(d), plain(other)), before), 'the document is changed')
    b = load(docs, URL)
    b.prepare()
    S.check(S.same(plain(b.dump()), dump), 'the same document gives another App')


@obligation('two', bounds='two Apps, of the same document or of two referring to a third, with any limits 0..9, on one resolver or two, prepared in any order; used with integers 0..9',
            cases=[dict(same=s, one=o) for s in (False, True) for o in (False, True)])
def two(S, same, one):
    ms = [S.int('ma', 0, 9), S.int('mb', 0, 9)]
    urls = [A, A if same else B]
    if same:
        S.assume(ms[0] == ms[1])
    n = S.int('n', 0, 9)
    docs = {A: description(ms[0], 'a', 'a.x', U), B: description(ms[1], 'b', 'b.x', U), U: {'definitions': {'S': {'type': 'integer', 'maximum': n}}}}
    before = plain(docs)
    log = []
    r = Resolver(default_getter=getter(docs, log)) if one else None
    apps = [None, None]
    for step in S.choice('steps', ['l0 p0 l1 p1', 'l0 l1 p0 p1', 'l0 l1 p1 p0', 'l0 p0 u0 l1 p1']).split():
        k = int(step[1])
        if step[0] == 'l':
            apps[k] = load(docs, urls[k], r)
        elif step[0] == 'p':
            apps[k].prepare()
        else:
            uses(S, apps[k], ms[k], 0, 'early')
    i = S.int('i', 0, 9)
    for k in S.choice('use', [[0, 1], [1, 0]]):
        a = apps[k]
        uses(S, a, ms[k], i, 'ab'[k])
        S.check(a.root.info.title == ('a' if same else 'ab'[k]), 'an App has the description of another one')
        S.check(a.op['theOp'].url == '//' + ('a.x' if same else 'ab'[k] + '.x') + '/b/p', 'an operation has the host of another App')
        e, _ = S.fn_raises(ValidationError, a.prim_factory.produce, a.resolve('#/definitions/R'), i)
        S.check(S.iff(e is None, i <= n), 'the limit of the shared document is another one')
    S.check(S.same(plain(docs), before), 'a document is changed')
    if one:
        S.check(sorted(log) == sorted(set(log)), 'a document is fetched again')
    else:
        S.check(apps[0].root is not apps[1].root, 'Apps share their objects')


@obligation('settings', bounds='two Apps of one document: credentials (texts of up to 2 characters), conversions and codecs given to one of them are not used by the other, made before or after it',
            cases=[dict(what=w, first=f) for w in ('security', 'prim', 'codec', 'sep') for f in (False, True)])
def settings(S, what, first):
    i = S.int('i', 0, 9)
    docs = {A: description(9, 'a', 'a.x')}
    k = {}
    secret = S.str('secret', 2, 1, 'ab')
    if what == 'prim':
        pf = Primitive()
        pf.register('integer', None, lambda obj, val, ctx: val + 100)
        k['prim'] = pf
    elif what == 'codec':
        mc = MimeCodec()

        class C(object):
            def marshal(self, value, **kwargs):
                return 'mine'

            def unmarshal(self, data, **kwargs):
                return {'x': 0}
        mc.register('application/json', C())
        k['mime_codec'] = mc
    elif what == 'sep':
        k['sep'] = '::'
    apps = {}
    for mine in ([True, False] if first else [False, True]):
        apps[mine] = load(docs, A, **(k if mine else {}))
        apps[mine].prepare()
    m, o = apps[True], apps[False]
    if what == 'security':
        sm, so = Security(m), Security(o)
        sm.update_with('key', secret)
        rm, ro = m.op['bare']()[0], o.op['bare']()[0]
        sm(rm)
        so(ro)
        S.check(S.same(list(rm.query), [('k', secret)]), 'the credentials are not used')
        S.check(list(ro.query) == [], 'the credentials of another App are used')
        rm2 = m.op['bare']()[0]
        S.check(list(rm2.query) == [], 'the credentials are used without being asked')
    elif what == 'prim':
        S.check(S.same(list(m.op['bare'](p=i)[0].query), [('p', str(i + 100))]), 'the conversion is not used')
    elif what == 'codec':
        req, _ = m.op['theOp'](b={'x': i})
        req.prepare()
        S.check(req.data == 'mine', 'the codec is not used')
    else:
        S.check('x::theOp' in list(m.op), 'the separator is not used')
        S.check('x!##!theOp' in list(o.op), 'the separator of another App is used')
    uses(S, o, 9, i, 'other')


@obligation('old', bounds='Swagger 1.2: two Apps of one list of resources with any limit 0..9, on one resolver or two; used with integers 0..9; the documents stay as they are',
            cases=[dict(one=o) for o in (False, True)])
def old(S, one):
    n = S.int('n', 0, 9)
    res = res12([('/p', [op12('get', params=[{'paramType': 'query', 'name': 'q', 'type': 'array', 'items': {'type': 'integer'}, 'required': False}, {'paramType': 'query', 'name': 'd', 'type': 'integer', 'defaultValue': 3, 'required': False}]),
                         op12('add', 'POST', params=[{'paramType': 'body', 'name': 'body', 'type': 'M'}])])],
                models={'M': {'id': 'M', 'subTypes': ['N'], 'discriminator': 'k', 'properties': {'k': {'type': 'string'}, 'x': {'type': 'integer', 'maximum': n}}}, 'N': {'id': 'N', 'properties': {}}})
    docs = docs12({'one': res}, authorizations={'key': {'type': 'apiKey', 'passAs': 'query', 'keyname': 'k'}})
    before = plain(docs)
    log = []
    r = Resolver(default_getter=getter(docs, log)) if one else None
    apps = []
    i = S.int('i', 0, 9)
    for k in range(2):
        apps.append(load(docs, ROOT, r))
        apps[k].prepare()
        for a in apps:
            e, _ = S.fn_raises(ValidationError, lambda: a.op['add'](body={'x': i}))
            S.check(S.iff(e is None, i <= n), 'the limit is another one')
            S.check(S.same(sorted(a.op['get'](q=[i])[0].query), [('d', '3'), ('q', str(i))]), 'an argument is lost or doubled')
            S.check(len(a.m['N'].allOf) == 1 and len(a.op['add'].parameters) == 1 and len(a.root.tags) == 1, 'something is there twice')
    S.check(S.same(plain(apps[0].dump()), plain(apps[1].dump())), 'the same documents give different Apps')
    S.check(S.same(plain(docs), before), 'a document is changed')


@obligation('memory', bounds='documents from a mapping by DictGetter (2.0, and 1.2 with two resources; any limit 0..9): two Apps by getters of one list of URLs and one mapping, one loaded before or after the other is used')
def memory(S):
    n, i = S.int('n', 0, 9), S.int('i', 0, 9)
    old = S.choice('old', [False, True])
    if old:
        docs = docs12(dict((r, res12([('/' + r, [op12(params=[{'name': 'p', 'paramType': 'query', 'type': 'integer', 'maximum': str(n)}])])])) for r in ('r', 's')))
        urls = [ROOT] + [x for x in docs if x != ROOT]
    else:
        docs, urls = {A: description(n, 'a', 'a.x')}, [A]
    before = plain(docs), list(urls)
    early = S.choice('early', [False, True])
    apps = []
    for k in range(2):
        a = App.load(urls[0], getter=DictGetter(urls, docs))
        a.prepare()
        apps.append(a)
        for a in apps if early or k else []:
            if not old:
                uses(S, a, n, i, 'ab'[k])
                continue
            for r in ('r', 's'):
                e, _ = S.fn_raises(ValidationError, lambda: a.op[r, 'theOp'](p=i))
                S.check(S.iff(e is None, i <= n), 'the limit is another one')
    S.check(S.same((plain(docs), list(urls)), before), 'what was given is changed')


@obligation('later', bounds='two Apps loaded from one URL with one getter (class given to resolvers, to load, or by hook) but resolvers of their own, the documents changed in between (any limits 0..9, 1.2 and 2.0); used with integers 0..9, the earlier App also afterwards',
            cases=[dict(how=h) for h in ('resolver', 'getter', 'none', 'old')])
def later(S, how):
    ms = [S.int('ma', 0, 9), S.int('mb', 0, 9)]
    docs = {}
    g = getter(docs, [])
    apps = []
    S.patch(resolve_module, 'UrlGetter', g)
    for k in (0, 1):
        docs.clear()
        if how == 'old':
            docs.update(docs12({'r': res12([('/a', [op12(params=[{'name': 'p', 'paramType': 'query', 'type': 'integer', 'format': 'int32', 'maximum': str(ms[k])}])])])}))
        else:
            docs.update({A: description(ms[k], 'ab'[k], 'ab'[k] + '.x', U), U: {'definitions': {'S': {'type': 'integer', 'maximum': ms[k]}}}})
        url = ROOT if how == 'old' else A
        if how in ('resolver', 'old'):
            a = App.load(url, resolver=Resolver(default_getter=g))
        elif how == 'getter':
            a = App.load(url, getter=g)
        else:
            a = App.load(url)
        a.prepare()
        apps.append(a)
    i = S.int('i', 0, 9)
    for k in (0, 1):
        if how == 'old':
            e, _ = S.fn_raises(ValidationError, lambda: apps[k].op['theOp'](p=i))
            S.check(S.iff(e is None, i <= ms[k]), 'the limit is that of another document')
            continue
        uses(S, apps[k], ms[k], i, 'ab'[k])
        S.check(apps[k].root.info.title == 'ab'[k], 'an App has the description of another one')
        e, _ = S.fn_raises(ValidationError, apps[k].prim_factory.produce, apps[k].resolve('#/definitions/R'), i)
        S.check(S.iff(e is None, i <= ms[k]), 'the limit of the shared document is another one')
