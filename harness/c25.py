"""C25 referenced parameters, responses and path items act as if inlined"""
from symx.api import obligation
from pyswagger import errs
from harness.util import app, doc, URL

FAR = 'http://h.x/api/o.json'
FARS = [False, 'absolute', 'relative', 'local']


def chain(kind, target, n, far, beside=()):
    """documents' sections in which target is reached over n references; (reference, sections, far sections)"""
    here, there = {}, {}
    for i in range(n):
        last = i == n - 1
        # a reference within a document may be local, or relative to its location
        d = target if last else dict([(k, target[k]) for k in beside], **{'$ref': ('#' if not far or (far == 'local' and i > 0) else 'o.json#' if far != 'absolute' else FAR + '#') + '/%s/r%d' % (kind, i + 1)})
        (there if far and i > 0 else here)['r%d' % i] = d
    return {'$ref': '#/%s/r0' % kind}, here, there


def build(kind, target, n, far, use, beside=()):
    """(App with the target in place, App with references)"""
    ref, here, there = chain(kind, target, n, far, beside)
    a = app(use(target))
    d = use(ref)
    d[kind] = here
    return a, app({URL: d, FAR: {kind: there}})


def outcome(S, f):
    e, r = S.fn_raises(Exception, f)
    return (e, r)


def same_request(S, a, b, args, what):
    ea, ra = S.fn_raises(Exception, lambda: a.op['theOp'](**args))
    eb, rb = S.fn_raises(Exception, lambda: b.op['theOp'](**args))
    S.check(ea is eb or type(ea) is type(eb), what + ' is judged differently')
    if ea is None and eb is None:
        ra, rb = ra[0], rb[0]
        ra.prepare(scheme='http', handle_files=False)
        rb.prepare(scheme='http', handle_files=False)
        S.check(S.all(S.same(ra.query, rb.query), S.same(ra.header, rb.header), S.same(ra.path, rb.path), S.same(ra.data, rb.data), ra.method == rb.method), what + ' gives another request')


PARAMS = ['integer', 'enum', 'array', 'multi', 'header', 'path', 'form', 'body', 'bodyref', 'file']


@obligation('parameters', bounds='a parameter of ten kinds (limits, enum, default, array formats, locations, body by schema) by a chain of up to three references (also with name and location repeated beside a $ref), also into another document (absolute, relative or local there); symbolic limits and values',
            cases=[dict(kind=k, n=n) for k, n in zip(PARAMS, (1, 2, 3, 1, 2, 3, 1, 2, 3, 1))], thorough=[dict(kind=k, n=n) for k in PARAMS for n in (1, 2, 3)])
def parameters(S, kind, n):
    far = S.choice('far', FARS)
    m = S.int('m', -3, 3)
    v = S.int('v', -5, 5)
    args = {'p': v}
    p = {'name': 'p', 'in': 'query', 'type': 'integer', 'maximum': m}
    if kind == 'integer':
        if S.choice('has_default', [False, True]):
            p['default'] = S.int('default', -3, 3)
        p['required'] = S.choice('required', [False, True])
        p['exclusiveMaximum'] = S.choice('excl', [False, True])
        if S.choice('absent', [False, True]):
            args = {}
    elif kind == 'enum':
        p = {'name': 'p', 'in': 'query', 'type': 'string', 'enum': [S.str('e0', 1, 1, 'abc'), S.str('e1', 1, 0, 'abc')]}
        args = {'p': S.str('t', 1, 0, 'abc')}
    elif kind in ('array', 'multi'):
        fmt = 'multi' if kind == 'multi' else S.choice('fmt', ['csv', 'ssv', 'pipes', None])
        p = {'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'integer', 'maximum': m}, 'maxItems': S.int('maxi', 0, 3)}
        if fmt:
            p['collectionFormat'] = fmt
        args = {'p': [v, S.int('v2', -5, 5)]}
    elif kind == 'header':
        p = dict(p, **{'in': 'header'})
    elif kind == 'path':
        p = dict(p, required=True, **{'in': 'path'})
    elif kind == 'form':
        p = dict(p, **{'in': 'formData'})
    elif kind == 'file':
        p = {'name': 'p', 'in': 'formData', 'type': 'file', 'required': S.choice('required', [False, True])}
        args = {}
    else:
        s = {'type': 'object', 'required': ['x'], 'properties': {'x': {'type': 'integer', 'maximum': m}}}
        p = {'name': 'p', 'in': 'body', 'schema': {'$ref': URL + '#/definitions/D'} if kind == 'bodyref' else s}
        args = {'p': {'x': v} if S.choice('with', [False, True]) else {'y': v}}

    def use(x):
        q = {'name': 'zz', 'in': 'query', 'type': 'string'}
        op = {'operationId': 'theOp', 'responses': {}, 'parameters': [x, q]}
        if kind == 'file':
            op['consumes'] = ['multipart/form-data']
        return doc({'/q{p}' if kind == 'path' else '/q': {'post': op}}, definitions={'D': {'type': 'object', 'required': ['x'], 'properties': {'x': {'type': 'integer', 'maximum': m}}}})
    a, b = build('parameters', p, n, far, use, S.choice('beside', [(), ('name', 'in')]) if n > 1 else ())
    same_request(S, a, b, args, 'the argument')
    # the referenced one stays as it is
    o = b.resolve(URL + '#/parameters/r0') if n == 1 else None
    if o is not None:
        S.check(o.name == 'p' and getattr(o, 'in') == p['in'], 'the referenced parameter is changed')


@obligation('responses', bounds='a response with schema, header and symbolic limits by a chain of up to three references, for a status code or default, also into another document (absolute, relative or local there)',
            cases=[dict(n=n, key=k) for n, k in ((1, '200'), (2, 'default'), (3, '200'))])
def responses(S, n, key):
    far = S.choice('far', FARS)
    m, v, h = S.int('m', -3, 3), S.int('v', -5, 5), S.int('h', -5, 5)
    t = {'description': 'd', 'schema': {'type': 'object', 'properties': {'x': {'type': 'integer', 'maximum': m}}}, 'headers': {'H': {'type': 'integer', 'maximum': m}}}

    def use(x):
        return doc({'/q': {'get': {'operationId': 'theOp', 'responses': {key: x}, 'produces': ['application/json']}}})
    a, b = build('responses', t, n, far, use, S.choice('beside', [(), ('description',)]) if n > 1 else ())
    out = []
    for x in (a, b):
        def go():
            r = x.op['theOp']()[1]
            r.apply_with(status=200, raw='{"x": %d}' % v, header={'H': str(h), 'Content-Type': 'application/json'})
            return r
        out.append(S.fn_raises(Exception, go))
    (ea, ra), (eb, rb) = out
    S.check(type(ea) is type(eb), 'the response is judged differently')
    S.check((ea is None) == (v <= m and h <= m), 'the limits of the response are not applied')
    if ea is None:
        S.check(S.all(S.same(ra.data['x'], rb.data['x']), S.same(ra.header['H'], rb.header['H'])), 'the response is another one')


FIELDS = ['tags', 'consumes', 'produces', 'schemes', 'security', 'parameters']


@obligation('pathitems', bounds='a path item by a chain of up to three references: four verbs present here, there, in both or nowhere; those beside the $ref win; symbolic limits and values',
            cases=[dict(n=n) for n in (1, 2, 3)])
def pathitems(S, n):
    verbs = ['get', 'post'] if n > 1 else ['get', 'post', 'put']
    far = S.choice('far', FARS)
    where = [dict((v, S.bool('%s%d' % (v, i))) for v in verbs) for i in range(n + 1)]
    lims = [S.int('m%d' % i, 0, 50) for i in range(n + 1)]
    items = []
    for i in range(n + 1):
        it = {}
        for v in verbs:
            if where[i][v]:
                it[v] = {'operationId': '%s%d' % (v, i), 'responses': {}, 'parameters': [{'name': 'p', 'in': 'query', 'type': 'integer', 'maximum': lims[i]}]}
        if i < n:
            it['$ref'] = ('#' if not far or (far == 'local' and i > 0) else 'o.json#' if far != 'absolute' else FAR + '#') + ('/paths/~1r%d' if not far else '/x/r%d') % (i + 1)
        items.append(it)
    paths, x = {'/r0': items[0]}, {}
    for i in range(1, n + 1):
        if far:
            x['r%d' % i] = items[i]
        else:
            paths['/r%d' % i] = items[i]
    a = app({URL: doc(paths), FAR: {'x': x}}, strict=False) if far else None
    if not far:
        # the operations of both are found under the same name
        for i in range(1, n + 1):
            for v in verbs:
                if v in items[i]:
                    del items[i][v]['operationId']
        for v in verbs:
            if v in items[0]:
                del items[0][v]['operationId']
        a = app(doc(paths), strict=False)
    o = a.root.paths['/r0']
    for v in verbs:
        win = [i for i in range(n + 1) if where[i][v]]
        got = getattr(o, v)
        S.check((got is not None) == bool(win), 'an operation is lost or invented')
        if win:
            S.check(S.same(got.parameters[0].maximum, lims[win[0]]), 'another operation takes precedence')
            S.check(got.path == '/r0' and got.method == v, 'the operation has another path')
    if not far:
        for i in range(1, n + 1):
            t = a.root.paths['/r%d' % i]
            for v in verbs:
                if getattr(t, v) is not None:
                    S.check(getattr(t, v).path == '/r%d' % i, 'the referenced path item is changed')
                    S.check(getattr(t, v) is not getattr(o, v), 'the operation is shared')


@obligation('operation', bounds='every field of an operation of a referenced path item (lists of up to three texts in any order, empty or absent, flags, path item parameters)',
            cases=[dict(field=f) for f in FIELDS])
def operation(S, field):
    op = {'operationId': 'theOp', 'responses': {'200': {'description': 'd'}}, 'summary': 's', 'deprecated': True}
    item = {'post': op}
    k = S.choice('n', [None, 0, 1, 2, 3])
    args = {}
    if k is not None:
        vals = [S.str('v%d' % i, 2, 1, 'abc/') for i in range(k)]
        for i in range(k):
            for j in range(i):
                S.assume(vals[i] != vals[j])
        if field == 'schemes':
            vals = S.choice('order', [['http', 'https', 'ws'], ['ws', 'https', 'http'], ['https', 'ws', 'http']])[:k]
        if field == 'security':
            vals = [{v: []} for v in vals]
        if field == 'parameters':
            vals = [{'name': 'p%d' % i, 'in': 'query', 'type': 'string', 'default': v} for i, v in enumerate(vals)]
            item['parameters'] = [{'name': 'q', 'in': 'query', 'type': 'string', 'default': S.str('q', 1, 0, 'ab')}]
        op[field] = vals
    d = {'consumes': ['dc'], 'produces': ['dp'], 'schemes': ['wss'], 'security': [{'ds': []}]}
    a = app(doc({'/p': item}, **d), strict=False)
    b = app({URL: doc({'/p': {'$ref': FAR + '#/x'}}, **d), FAR: {'x': item}}, strict=False)
    oa, ob = a.root.paths['/p'].post, b.root.paths['/p'].post
    for f in ('tags', 'consumes', 'produces', 'schemes', 'cached_schemes', 'security', 'operationId', 'summary', 'deprecated', 'description', 'method', 'path', 'base_path', 'url'):
        S.check(S.same(getattr(oa, f), getattr(ob, f)), 'the operation has another ' + f)
    ra, rb = oa()[0], ob()[0]
    S.check(S.same(ra.query, rb.query), 'the operation gives another request')
    S.check(list(oa.responses) == list(ob.responses), 'the operation has other responses')


@obligation('nested', bounds='a referenced parameter, response or path item of another document holding local references to a schema, parameter or response of that document, the description having others of the same name, with or without an operation beside a $ref of a path item; symbolic limits and values',
            cases=[dict(kind=k) for k in ('body', 'response', 'item-parameter', 'shared-parameter', 'item-response', 'item-body', 'item-items')])
def nested(S, kind):
    v = S.int('v', -5, 5)
    m, o = S.int('m', -3, 3), S.int('other', -3, 3)
    sch = lambda x: {'type': 'integer', 'maximum': x}
    par = lambda x: {'name': 'p', 'in': 'query', 'type': 'integer', 'maximum': x}
    resp = lambda s: {'description': 'd', 'schema': s}
    loc = {'$ref': S.choice('spell', ['#', 'o.json#', FAR + '#']) + '/definitions/D'}
    far = {'definitions': {'D': sch(m)}, 'parameters': {'P': par(m), 'B': {'name': 'p', 'in': 'body', 'schema': loc}}, 'responses': {'R': resp(loc)}}
    top = {'definitions': {'D': sch(o)}, 'parameters': {'P': par(o), 'B': {'name': 'p', 'in': 'body', 'schema': sch(o)}}, 'responses': {'R': resp(sch(o))}}
    op = {'operationId': 'theOp', 'responses': {'200': {'description': 'd'}}, 'produces': ['application/json']}
    item = {'post': op}
    args = {'p': v}
    if kind == 'body':
        op['parameters'] = [{'$ref': FAR + '#/parameters/B'}]
    elif kind == 'response':
        op['responses'] = {'200': {'$ref': 'o.json#/responses/R'}}
    elif kind == 'item-parameter':
        op['parameters'] = [{'$ref': '#/parameters/P'}]
    elif kind == 'shared-parameter':
        item['parameters'] = [{'$ref': '#/parameters/P'}]
    elif kind == 'item-response':
        op['responses'] = {'200': {'$ref': '#/responses/R'}}
    elif kind == 'item-body':
        op['parameters'] = [{'name': 'p', 'in': 'body', 'schema': {'properties': {'x': loc}, 'type': 'object'}}]
        args = {'p': {'x': v}}
    else:
        op['responses'] = {'200': resp({'type': 'array', 'items': loc})}
    paths = {'/q': item}
    if kind.startswith('item') or kind == 'shared-parameter':
        # the path item is referenced directly, or via another one of that or of this document
        far['x'] = {'i': item, 'j': {'$ref': '#/x/i'}}
        how = S.choice('how', ['direct', 'far', 'here'])
        paths = {'/q': {'$ref': FAR + '#/x/' + ('j' if how == 'far' else 'i')}}
        # an operation beside the reference
        beside = S.choice('beside', [None, 'get', 'put'])
        if beside:
            paths['/q'][beside] = {'responses': {'200': {'description': 'd'}}}
        if how == 'here':
            # the operations of both paths would have the same name
            del op['operationId']
            paths = {'/a' if S.choice('first', [False, True]) else '/z': dict(paths['/q']), '/q': None}
            paths['/q'] = {'$ref': '#/paths/~1' + [k for k in paths if k != '/q'][0][1:]}
    a = app({URL: doc(paths, **top), FAR: far})
    operation = a.root.paths['/q'].post

    def go():
        if 'response' in kind or kind == 'item-items':
            r = operation()[1]
            r.apply_with(status=200, raw=('[%d]' if kind == 'item-items' else '%d') % v, header={'Content-Type': 'application/json'})
            return r
        return operation(**args)
    e, r = S.fn_raises(Exception, go)
    S.check((e is None) == (v <= m), 'the limits of another document are applied')
