"""C15 credentials go where the security scheme says"""
import base64
from symx.api import obligation
from pyswagger import Security
from harness.util import app, op_doc

DEFS = {
    'bas': {'type': 'basic'},
    'hkey': {'type': 'apiKey', 'name': 'X-Key', 'in': 'header'},
    'qkey': {'type': 'apiKey', 'name': 'api_key', 'in': 'query'},
    'oa': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://a', 'scopes': {'s': 'scope'}},
}
PS = [{'name': 'q', 'in': 'query', 'type': 'integer'}, {'name': 'h', 'in': 'header', 'type': 'integer'},
      {'name': 'api_key', 'in': 'query', 'type': 'string'}, {'name': 'X-Key', 'in': 'header', 'type': 'string'},
      {'name': 'Authorization', 'in': 'header', 'type': 'string'}]


def basic(user, pw):
    return 'Basic ' + base64.b64encode((user + ':' + pw).encode('latin-1')).decode('ascii')


def sent(req):
    req.prepare()
    return dict((k, v) for k, v in req.header.items()), list(req.query)


def expect(S, req, header, query, url='http://h.x/b/p'):
    h, q = sent(req)
    S.check(S.same(h, header), 'other headers are sent')
    S.check(S.same(sorted(q), sorted(query)), 'another query is sent')
    S.check(req.url == url and req.data is None, 'something else is changed')


@obligation('basic', bounds='user and password: any Latin-1 texts of up to 2 and 1 characters, ASCII up to 3 and 2; Authorization header argument given or not',
            cases=[dict(n=2, m=1, top=255), dict(n=3, m=2, top=127), dict(n=0, m=0, top=1)])
def basic_(S, n, m, top):
    u, p = S.str('user', n, 0, [(0, top)]), S.str('pw', m, 0, [(0, top)])
    a = app(op_doc(PS, security=[{'bas': []}], top={'securityDefinitions': DEFS}))
    sec = Security(a)
    sec.update_with('bas', (u, p))
    args = {'q': 1}
    if S.choice('own', [False, True]):
        args['Authorization'] = 'mine'
    req, _ = a.op['theOp'](**args)
    S.check(sec(req) is req, 'the request is not returned')
    h, q = sent(req)
    S.check(list(h) == ['Authorization'], 'other headers are sent')
    t = h['Authorization']
    S.check(S.same(t[:6], 'Basic '), 'the credential is not marked as Basic')
    S.check(S.same(base64.b64decode(t[6:].encode('ascii'), validate=True).decode('latin-1'), u + ':' + p), 'other credentials are sent')
    S.check(q == [('q', '1')] and req.url == 'http://h.x/b/p', 'something else is changed')


@obligation('key', bounds='API keys and tokens of up to 3 Unicode characters, key names of up to 2 characters of "abX-" in header or query, equal to an argument of the request or not',
            cases=[dict(where='header'), dict(where='query'), dict(where='oauth2')])
def key(S, where):
    tok = S.str('tok', 3, 0)
    name = 'access_token' if where == 'oauth2' else S.str('name', 2, 1, 'abX-')
    d = {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://a', 'scopes': {'s': 's', 't': 't'}} if where == 'oauth2' else {'type': 'apiKey', 'name': name, 'in': where}
    at = 'query' if where == 'query' else 'header'
    other = 'header' if where == 'query' else 'query'
    ps = [{'name': 'ab', 'in': at, 'type': 'integer'}, {'name': 'z', 'in': at, 'type': 'integer'}, {'name': 'o', 'in': other, 'type': 'integer'}]
    method = S.choice('method', ['get', 'post', 'put', 'delete', 'head'])
    scopes = S.choice('scopes', [[], ['s'], ['s', 't']]) if where == 'oauth2' else []
    a = app(op_doc(ps, security=[{'k': scopes}], method=method, top={'securityDefinitions': {'k': d, 'unused': DEFS['bas']}}))
    sec = Security(a)
    sec.update_with('k', tok)
    req, _ = a.op['theOp'](ab=1, z=2, o=3)
    sec(req)
    if S.choice('twice', [False, True]):
        sec(req)
    want = [('ab', tok), ('z', '2')] if name == 'ab' else [('ab', '1'), ('z', '2'), (name, tok)]
    h, q = sent(req)
    got = q if where == 'query' else list(h.items())
    S.check(len(got) == len(want) and S.all(*[S.any(*[S.same(tuple(g), w) for w in want]) for g in got], *[S.any(*[S.same(tuple(g), w) for g in got]) for w in want]),
            'the credential is at another place, or something else is changed')
    S.check(S.same(list(h.items()) if where == 'query' else q, [('o', '3')]), 'something is added at another place')


@obligation('subsets', bounds='every subset of four schemes required by operation or document (one or several per requirement, with or without a requirement of nothing among them), every subset with known credentials, texts of one letter',
            cases=[dict(level=l, joint=j) for l in ('op', 'doc') for j in (False, True)])
def subsets(S, level, joint):
    names = ['bas', 'hkey', 'qkey', 'oa']
    req_ = [n for n in names if S.choice('req-' + n, [False, True])]
    have = [n for n in names if S.choice('have-' + n, [False, True])]
    rs = [dict((n, []) for n in req_)] if joint else [dict([(n, [])]) for n in req_]
    if not joint or level == 'op':
        # a requirement of nothing
        at = S.choice('empty', [None, 0] if joint else [None, len(req_) // 2])
        if at is not None:
            rs.insert(at, {})
    if level == 'op':
        d = op_doc(PS, security=rs, top={'securityDefinitions': DEFS, 'security': [{'hkey': []}, {'qkey': []}]})
    else:
        d = op_doc(PS, top={'securityDefinitions': DEFS, 'security': rs})
    a = app(d)
    sec = Security(a)
    c = S.str('c', 1, 1, 'abc')
    for n in have:
        sec.update_with(n, 'old' if n != 'bas' else ('old', 'old'))
        sec.update_with(n, c + n if n != 'bas' else (c, 'pw'))
    own = S.choice('own', [False, True]) if len(req_) > 2 or not req_ else joint
    args = {'api_key': 'mine', 'X-Key': 'mine', 'Authorization': 'mine'} if own else {}
    req, _ = a.op['theOp'](q=1, h=2, **args)
    sec(req)
    header, query = {'h': '2'}, {'q': '1'}
    for k in args:
        (query if k == 'api_key' else header)[k] = 'mine'
    for n in have:
        if n in req_:
            if n == 'bas':
                header['Authorization'] = basic(c, 'pw')
            elif n == 'hkey':
                header['X-Key'] = c + n
            elif n == 'oa':
                header['access_token'] = c + n
            else:
                query['api_key'] = c + n
    expect(S, req, header, list(query.items()))


@obligation('unknown', bounds='names of up to 3 characters of "key" for a defined scheme "key"; documents without any scheme')
def unknown(S):
    name = S.str('name', 4, 0, 'key')
    defs = S.choice('defs', [True, False])
    a = app(op_doc([], top={'securityDefinitions': {'key': DEFS['qkey']}} if defs else {}))
    e, _ = S.fn_raises(ValueError, lambda: Security(a).update_with(name, 'x'))
    S.check(S.iff(e is None, S.all(defs, name == 'key')), 'an unknown scheme is accepted' if e is None else 'a known scheme is refused')


@obligation('isolation', bounds='two holders with different credentials of one app, two requests each')
def isolation(S):
    a = app(op_doc(PS, security=[{'qkey': []}, {'hkey': []}], top={'securityDefinitions': DEFS}))
    c = [S.str('c%d' % i, 2, 1) for i in range(2)]
    secs = [Security(a), Security(a)]
    secs[0].update_with('qkey', c[0])
    secs[1].update_with('qkey', c[1])
    secs[1].update_with('hkey', 'k1')
    order = S.choice('order', [[0, 1, 0], [1, 0, 1], [0, 0, 1]])
    reqs = []
    for i in order:
        req, _ = a.op['theOp'](q=i)
        reqs.append(req)
        secs[i](req)
    for i, req in zip(order, reqs):
        expect(S, req, {'X-Key': 'k1'} if i else {}, [('q', str(i)), ('api_key', c[i])])


@obligation('taken', bounds='an apiKey whose name is the one of a query argument given 1..3 times (list as multi) beside two others, any of the orders; texts of one letter')
def taken(S):
    n = S.choice('n', [1, 2, 3])
    ps = [{'name': 'q', 'in': 'query', 'type': 'integer'}, {'name': 'api_key', 'in': 'query', 'type': 'array', 'collectionFormat': 'multi', 'items': {'type': 'string'}},
          {'name': 'r', 'in': 'query', 'type': 'array', 'collectionFormat': 'multi', 'items': {'type': 'string'}}]
    ps = [ps[i] for i in S.choice('order', [[0, 1, 2], [1, 0, 2], [2, 1, 0]])]
    a = app(op_doc(ps, security=[{'qkey': []}], top={'securityDefinitions': DEFS}))
    sec = Security(a)
    tok = S.str('tok', 1, 1, 'abc')
    sec.update_with('qkey', tok)
    own = [S.str('own%d' % i, 1, 1, 'abc') for i in range(n)]
    req, _ = a.op['theOp'](q=1, api_key=own, r=own)
    sec(req)
    h, q = sent(req)
    mine = [v for k, v in q if k == 'api_key']
    S.check(len(mine) > 0 and S.all(*[S.same(v, tok) for v in mine]), 'a credential of the caller is sent beside the one of the scheme')
    S.check(S.same([v for k, v in q if k == 'r'], own), 'another argument is changed')
    S.check([v for k, v in q if k == 'q'] == ['1'] and all(k in ('q', 'r', 'api_key') for k, v in q), 'something else is changed')
    S.check(h == {}, 'a header is sent')
