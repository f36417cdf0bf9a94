"""C09 arguments of an operation reach their place"""
import json
from urllib.parse import parse_qsl, unquote
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import op_app, doc, app

NONE = ('none',)


def sent(req, accept=()):
    """everything a prepared request would send"""
    req.prepare()
    h = dict((k, v) for k, v in req.header.items())
    return dict(query=list(req.query), header=h, path=req.path, data=req.data, files=dict(req.files))


def call(S, a, args, ok, key='theOp'):
    try:
        req, _ = a.op[key](**args)
    except (ValueError, ValidationError):
        S.check(S.not_(ok), 'an allowed call is rejected')
        S.observe('r', 'rejected')
        return None
    S.check(ok, 'a forbidden call is accepted')
    return req


LOCS = ['query', 'header', 'path', 'formData']


@obligation('one', bounds='one parameter (text up to 2 characters or integer) in query, header, path or form, required or not, with or without default (also empty / 0), supplied or not',
            cases=[dict(loc=l, typ=t) for l in LOCS for t in ('string', 'integer')])
def one(S, loc, typ):
    p = {'name': 'arg', 'in': loc, 'type': typ}
    alpha = [(32, 126)] if loc == 'path' else None

    def value(tag):
        return S.str(tag, 1 if loc == 'path' else 2, 0, alpha) if typ == 'string' else S.int(tag, -99, 99)
    req_ = S.choice('required', [None, False, True])
    if req_ is not None:
        p['required'] = req_
    if S.choice('has_default', [False, True]):
        p['default'] = value('default')
    args = {}
    if S.choice('given', [False, True]):
        args['arg'] = value('v')
    S.assume(loc != 'path' or 'arg' in args or 'default' in p or req_)
    v = args.get('arg', p.get('default', NONE))
    a = op_app([p], '/p/{arg}' if loc == 'path' else '/p', 'post')
    req = call(S, a, args, not (v is NONE and req_ is True))
    if req is None:
        return
    if loc != 'formData':
        s = sent(req)
        t = None if v is NONE else str(v)
        q, h, path = [], {}, '/b/p'
        if v is not NONE:
            if loc == 'query':
                q = [('arg', t)]
            elif loc == 'header':
                h = {'arg': t}
        if loc == 'path':
            S.check(s['path'].startswith('/b/p/') or s['path'].startswith('/p/'), 'the path template is changed')
            seg = s['path'].split('/')[-1]
            S.check(S.same(unquote(seg.replace('+', ' ')), t), 'the path holds another text')
        S.check(S.same(s['query'], q), 'the query is another one')
        S.check(S.same(s['header'], h), 'the headers are others')
        S.check(s['data'] is None and s['files'] == {}, 'something is sent as body')
    else:
        S.check(S.same(list(req._p['formData']), [] if v is NONE else [('arg', str(v))]), 'the form is another one')
        S.check(list(req.query) == [] and req._p['header'] == {} and req._p['path'] == {} and req._p['body'] == {} and dict(req.files) == {},
                'something is sent at another place')


@obligation('many', bounds='two query, two header, one path and two form parameters (names in mixed case), one of each with a default; every subset of the optional ones supplied with any digits (-9..9 for one of them)', cases=[dict(rev=False), dict(rev=True)])
def many(S, rev):
    names = [('q1', 'query', None), ('Q2', 'query', 7), ('h1', 'header', None), ('X-H2', 'header', 8), ('pA', 'path', None), ('f1', 'formData', None), ('F2', 'formData', 9)]
    ps = []
    for n, l, dv in names:
        p = {'name': n, 'in': l, 'type': 'integer'}
        if dv is not None:
            p['default'] = dv
        if l == 'path':
            p['required'] = True
        ps.append(p)
    if rev:
        ps = ps[::-1]
        names = names[::-1]
    a = op_app(ps, '/p/{pA}/x', 'post')
    args = {}
    for n, l, dv in names:
        if n in ('pA', 'h1', 'f1') or S.choice('has_' + n, [False, True]):
            args[n] = S.int(n, -9 if n == 'q1' else 0, 9)
    req, _ = a.op['theOp'](**args)
    want = dict(query=[], header=[], path=[], formData=[])
    for n, l, dv in names:
        v = args.get(n, dv)
        if v is not None:
            want[l].append((n, str(v)))
    s = sent(req)
    S.check(S.same(s['query'], want['query']), 'the query is another one')
    got, h = {}, {}
    for k, v in s['header'].items():
        # the case of the names of headers does not matter
        got[k.lower()] = v
    for k, v in want['header'] + [('Content-Type', 'application/x-www-form-urlencoded')]:
        h[k.lower()] = v
    S.check(S.same(got, h), 'the headers are others')
    S.check(len(s['header']) == len(h), 'a header is doubled')
    S.check(S.same(s['path'].split('/')[-2], str(args['pA'])), 'the path holds another text')
    S.check(S.same(parse_qsl(s['data']), want['formData']), 'the form is another one')
    S.check(s['files'] == {}, 'files are sent')


@obligation('body', bounds='a body (object with an integer and a text) beside a query and a header parameter; body supplied or not, required or not, with or without default')
def body(S):
    d = {'type': 'object', 'properties': {'i': {'type': 'integer', 'maximum': 5}, 's': {'type': 'string'}}}
    p = {'name': 'payload', 'in': 'body', 'schema': d}
    req_ = S.choice('required', [False, True])
    if req_:
        p['required'] = True
    dflt = S.choice('default', [False, True])
    if dflt:
        p['default'] = {'i': 1}
    a = op_app([{'name': 'q', 'in': 'query', 'type': 'integer'}, p, {'name': 'h', 'in': 'header', 'type': 'integer'}], method='post')
    args = {'q': S.int('q', -9, 9), 'h': S.int('h', -9, 9)}
    ok = not req_ or dflt
    want = {'i': 1} if dflt else None
    if S.choice('given', [False, True]):
        want = args['payload'] = {'i': S.int('i', -9, 9), 's': S.str('s', 1, 0, [(32, 126)])}
        ok = args['payload']['i'] <= 5
    req = call(S, a, args, ok)
    if req is None:
        return
    S.check(S.same(list(req.query), [('q', str(args['q']))]), 'the query is another one')
    if want is None:
        S.check(req._p['body'] == {}, 'a body is sent that was not supplied')
        return
    s = sent(req)
    S.check(S.same(json.loads(s['data']), want), 'the body is another one')
    S.check(S.same(s['header'], {'h': str(args['h']), 'Content-Type': 'application/json'}), 'the headers are others')
    S.check(s['files'] == {}, 'files are sent')


@obligation('body-types', bounds='bodies of every type: integer, text, boolean, list of integers, allOf')
def bodytypes(S):
    k = S.choice('kind', ['integer', 'string', 'boolean', 'array', 'allOf'])
    schema = {'allOf': [{'type': 'object', 'properties': {'a': {'type': 'integer'}}}, {'type': 'object', 'properties': {'b': {'type': 'integer'}}}]} if k == 'allOf' else {'type': k}
    if k == 'array':
        schema['items'] = {'type': 'integer'}
    v = {'integer': lambda: S.int('v', -99, 99), 'string': lambda: S.str('v', 2, 0, [(32, 126)]), 'boolean': lambda: S.choice('v', [False, True]),
         'array': lambda: [S.int('v%d' % i, -9, 9) for i in range(S.choice('n', [0, 1, 2]))],
         'allOf': lambda: {'a': S.int('a', -9, 9), 'b': S.int('b', -9, 9)}}[k]()
    a = op_app([{'name': 'payload', 'in': 'body', 'required': True, 'schema': schema}], method='put')
    req, _ = a.op['theOp'](payload=v)
    s = sent(req)
    S.check(S.same(json.loads(s['data']), v), 'the body is another one')
    S.check(s['query'] == [] and s['files'] == {}, 'something else is sent')


@obligation('file', bounds='a file, a list of up to 2 files and a form field; each supplied or not')
def files(S):
    a = op_app([{'name': 'f', 'in': 'formData', 'type': 'file'}, {'name': 'fs', 'in': 'formData', 'type': 'array', 'items': {'type': 'file'}},
                {'name': 'x', 'in': 'formData', 'type': 'integer'}], method='post', consumes=['multipart/form-data', 'application/x-www-form-urlencoded'])
    args = {}
    if S.choice('has_f', [False, True]):
        args['f'] = dict(filename=S.str('fn', 2, 1, 'abc'))
    if S.choice('has_fs', [False, True]):
        args['fs'] = [dict(filename=S.str('fn%d' % i, 1, 1, 'abc')) for i in range(S.choice('n', [1, 2]))]
    if S.choice('has_x', [False, True]):
        args['x'] = S.int('x', -9, 9)
    req, _ = a.op['theOp'](**args)
    f = req.files
    S.check(sorted(f.keys()) == sorted(k for k in args if k != 'x'), 'files are lost or invented')
    if 'f' in args:
        S.check(S.same(f['f'].filename, args['f']['filename']), 'another file is sent')
    if 'fs' in args:
        S.check(S.same([x.filename for x in f['fs']], [x['filename'] for x in args['fs']]), 'other files are sent')
    S.check(S.same(list(req._p['formData']), [('x', str(args['x']))] if 'x' in args else []), 'the form is another one')
    S.check(list(req.query) == [] and req._p['body'] == {} and req._p['header'] == {}, 'something is sent at another place')


@obligation('reject', bounds='unknown names (one of six near-misses), missing required arguments of any of three locations, values beyond their limits: nothing is built')
def reject(S):
    ps = [{'name': 'abc', 'in': 'query', 'type': 'integer', 'maximum': 5, 'required': True},
          {'name': 'hd', 'in': 'header', 'type': 'string', 'maxLength': 1},
          {'name': 'pa', 'in': 'path', 'type': 'string', 'enum': ['x', 'y'], 'required': True}]
    a = op_app(ps, '/p/{pa}')
    args, ok = {}, []
    if S.choice('has_abc', [False, True]):
        args['abc'] = S.int('abc', -9, 9)
        ok.append(args['abc'] <= 5)
    else:
        ok.append(False)
    if S.choice('has_hd', [False, True]):
        args['hd'] = S.str('hd', 2)
        ok.append(len(args['hd']) <= 1)
    if S.choice('has_pa', [False, True]):
        args['pa'] = S.str('pa', 1)
        ok.append(S.any(args['pa'] == 'x', args['pa'] == 'y'))
    else:
        ok.append(False)
    u = S.choice('unknown', [None, 'ABC', 'ab', 'abcd', 'header', 'in', 'Hd'])
    if u is not None:
        args[u] = S.int('u', -9, 9)
        ok.append(False)
    req = call(S, a, args, S.all(*ok))
    if req is not None:
        S.check(S.same(list(req.query), [('abc', str(args['abc']))]), 'the query is another one')


@obligation('levels', bounds='parameters declared by the path item and by the operation, in query and header, each supplied or not, required or not',
            stubs='')
def levels(S):
    ps = [{'name': 'p1', 'in': 'query', 'type': 'integer', 'required': S.choice('r1', [False, True])},
          {'name': 'p2', 'in': 'header', 'type': 'integer'}]
    os_ = [{'name': 'o1', 'in': 'query', 'type': 'integer'},
           {'name': 'p2', 'in': 'header', 'type': 'integer', 'maximum': 5}]
    override = S.choice('override', [False, True])
    a = app(doc({'/p': {'parameters': ps, 'get': {'operationId': 'theOp', 'responses': {}, 'parameters': os_ if override else os_[:1]},
                        'put': {'operationId': 'other', 'responses': {}}}}))
    key = S.choice('op', ['theOp', 'other'])
    args, ok = {}, []
    for n in ('p1', 'p2', 'o1'):
        if S.choice('has_' + n, [False, True]):
            args[n] = S.int(n, -9, 9)
    if 'p1' not in args:
        ok.append(not ps[0]['required'])
    if key == 'other':
        ok.append('o1' not in args)
    elif override and 'p2' in args:
        ok.append(args['p2'] <= 5)
    req = call(S, a, args, S.all(*ok), key)
    if req is None:
        return
    q = dict(req.query)
    S.check(len(q) == len(req.query), 'a query argument is sent twice')
    S.check(S.same(q, dict((n, str(args[n])) for n in ('p1', 'o1') if n in args)), 'the query is another one')
    S.check(S.same(dict(req._p['header']), {'p2': str(args['p2'])} if 'p2' in args else {}), 'the headers are others')
