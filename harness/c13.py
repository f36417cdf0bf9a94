"""C13 requests do not leak into each other or into the caller's data"""
import copy
from symx.api import obligation
from pyswagger import Security
from pyswagger.core import BaseClient
from harness.util import app, doc, op_doc


def theDoc(kind):
    def par(n, l, **k):
        return dict({'type': 'integer'}, name=n, **dict({'in': l}, **k))
    last = {'form': [par('f', 'formData'), {'name': 'l', 'in': 'formData', 'type': 'array', 'items': {'type': 'integer'}, 'collectionFormat': 'multi', 'default': [7]}],
            'body': [{'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'i': {'type': 'integer'}, 'l': {'type': 'array', 'items': {'type': 'integer'}}, 'd': {'type': 'object', 'default': {'z': 1}}}, 'additionalProperties': True}}]}[kind]
    ops = {'parameters': [par('h', 'header'), par('q', 'query', default=5), par('pa', 'path', required=True)],
           'post': {'operationId': 'theOp', 'responses': {}, 'parameters': last, 'security': [{'key': []}, {'qkey': []}], 'produces': ['x/one', 'x/two']},
           'put': {'operationId': 'other', 'responses': {}, 'parameters': last + [par('q2', 'query')], 'schemes': ['https']}}
    return doc({'/p/{pa}': ops}, schemes=['http', 'https'], securityDefinitions={
        'key': {'type': 'apiKey', 'name': 'X-Key', 'in': 'header'}, 'qkey': {'type': 'apiKey', 'name': 'qk', 'in': 'query'}})


class Client(BaseClient):
    __schemes__ = set(['http', 'https'])


class World(object):
    """one app and the things an application keeps"""
    def __init__(self, S, kind, secret):
        self.S, self.kind = S, kind
        self.app = app(theDoc(kind))
        self.sec = Security(self.app)
        self.sec.update_with('key', secret)
        self.sec.update_with('qkey', 'q' + secret)
        self.client = Client(self.sec)
        self.custom = {'X-Custom': 'c'}
        self.clist = [('X-Custom', 'c'), ('X-Custom', 'd')]
        self.opt = {'join_headers': True}

    def call(self, op, args):
        self.req, self.resp = self.app.op[op](**args)

    def do(self, act):
        """one action on the current request"""
        r, c = self.req, self.client
        if act == 'prepare':
            r.prepare(scheme=c.prepare_schemes(r))
        elif act == 'https':
            r.prepare(scheme='https')
        elif act == 'two':
            r.produce('x/two')
        elif act == 'patch':
            r._patch({'url_netloc': 'other:80'})
        elif act == 'reset':
            r.reset()
        elif act == 'auth':
            c.request((r, self.resp))
        elif act == 'compose':
            return c.compose_headers(r, self.custom, None, as_dict=True)
        elif act == 'join':
            return c.compose_headers(r, self.clist, self.opt)
        return None

    def state(self, done):
        r = self.req
        return dict(url=r.url, path=r.path, query=list(r.query), header=dict((k, v) for k, v in r.header.items()), data=r.data if done else None, files=dict(r.files))


def arguments(S, kind, i, other):
    a = {'pa': S.int('pa%d' % i, 0, 9)}
    if not other:
        a['h'] = S.int('h%d' % i, 0, 9)
    else:
        a['q2'] = S.int('qq%d' % i, 0, 9)
    if kind == 'form':
        a['f'] = S.int('f%d' % i, 0, 9)
        if other:
            a['l'] = [S.int('l%d' % i, 0, 9)]
    else:
        a['b'] = {'i': S.int('i%d' % i, 0, 9), 'l': [1, S.int('l%d' % i, 0, 9)], 'extra': {'k': [1]}}
        if other:
            a['b'] = {'d': {'y': S.int('y%d' % i, 0, 9)}}
    return a


def plain(x):
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


PREP = ('prepare', 'https')
ACTS = ['prepare', 'https', 'two', 'patch', 'reset', 'auth', 'compose', 'join', 'new']


def history(S, kind, first, n):
    w = World(S, kind, 's3')
    before = plain(w.app.dump())
    log, given, prepared = None, [], False
    i = 0
    for step in range(n + 1):
        act = 'new' if step == 0 else first if step == 1 else 'prepare' if step == n and not prepared else S.choice('act%d' % step, ACTS)
        if act in PREP and prepared:
            w.do('reset')       # preparing again needs a reset
            log = [x for x in log if x in ('auth', 'two')]
            prepared = False
        if act == 'new':
            other = i == 1
            args = arguments(S, kind, i, other)
            given.append((args, plain(args)))
            w.call('other' if other else 'theOp', args)
            op, log, prepared = ('other' if other else 'theOp'), [], False
            i += 1
            got = None
        else:
            if act == 'two' and op == 'other':
                act = 'auth'
            got = w.do(act)
            if act == 'reset':
                log = [x for x in log if x in ('auth', 'two')]
                prepared = False
            else:
                log.append(act)
            prepared = prepared or act in PREP
    # the same request, alone in a fresh world
    f = World(S, kind, 's3')
    f.call(op, given[-1][1])
    want = None
    for act in log:
        want = f.do(act)
    if got is not None:
        S.check(S.same(sorted(plain(got.items() if isinstance(got, dict) else got)), sorted(plain(want.items() if isinstance(want, dict) else want))),
                'composed headers depend on earlier requests')
    s = w.state(prepared)
    S.check(S.same(plain(s), plain(f.state(prepared))), 'a request depends on what happened before it')
    S.check(S.all(*[S.same(plain(a), b) for a, b in given]), "the caller's arguments are changed")
    S.check(w.custom == {'X-Custom': 'c'} and w.clist == [('X-Custom', 'c'), ('X-Custom', 'd')], "the caller's headers are changed")
    S.check(w.opt == {'join_headers': True}, "the caller's options are changed")
    S.check(S.same(plain(w.app.dump()), before), 'the description is changed')


FIRST = [a for a in ACTS]


@obligation('history', bounds='every history of a call and 3 further actions (prepare with scheme http or https, choose Accept, patch the host, reset, authorise, compose headers as mapping or joined, call another operation of the path), one digit arguments, form or body',
            cases=[dict(kind=k, first=a, n=3) for k in ('form', 'body') for a in FIRST],
            thorough=[dict(kind=k, first=a, n=4) for k in ('form', 'body') for a in FIRST])
def run(S, kind, first, n):
    history(S, kind, first, n)


@obligation('schemes', bounds='lists of schemes given by the caller to prepare: up to 3 schemes, with or without a preferred one')
def schemes(S):
    a = app(theDoc('form'))
    req, _ = a.op['theOp'](pa=1)
    l = S.choice('schemes', [['http'], ['https'], ['http', 'https'], ['https', 'http', 'ws']])
    mine = list(l)
    pref = S.choice('prefer', [None, 'http', 'https'])
    req.scheme = pref
    S.assume(pref is None or pref in l)
    req.prepare(scheme=mine)
    S.check(mine == l, "the caller's list of schemes is changed")
    S.check(req.url.split(':')[0] in l, 'the scheme is none of the list')
    S.check(pref is None or req.url.split(':')[0] == pref, 'the preferred scheme is not used')


@obligation('defaults', bounds='defaults of parameters (list, object) of any integers, changed in the sent request after it was built')
def defaults(S):
    i = S.int('i', -9, 9)
    ps = [{'name': 'l', 'in': 'query', 'type': 'array', 'items': {'type': 'integer'}, 'collectionFormat': 'multi', 'default': [i]},
          {'name': 'b', 'in': 'body', 'schema': {'type': 'object', 'properties': {'x': {'type': 'array', 'items': {'type': 'integer'}}, 'y': {'type': 'array', 'items': {'type': 'integer'}, 'default': [i]}}}, 'default': {'x': [i, 1]}}]
    from harness.util import op_app
    a = op_app(ps, method='post')
    r1, _ = a.op['theOp']()
    b = r1._p['body']['b']
    b['x'].append(5)
    b['y'].append(5)
    b['z'] = 1
    r1.query.append(('l', '5'))
    r2, _ = a.op['theOp']()
    S.check(S.same(list(r2.query), [('l', str(i))]), 'the default of the query parameter is changed')
    S.check(S.same(plain(r2._p['body']['b']), {'x': [i, 1], 'y': [i]}), 'the default of the body is changed')


@obligation('refused', bounds='a call that is accepted, or refused for a limit (any integers -1..9) of a query list, a nested body (with discriminators or not), an allOf member or a form item (unique items or not), or for an unknown or missing argument, before the same operation is called again: arguments and description keep their values',
            cases=[dict(kind=k) for k in ('query', 'body', 'allOf', 'kinds', 'form', 'unknown', 'missing')])
def refused(S, kind):
    i, m = S.int('i', -1, 9), S.int('m', -1, 9)
    unique = S.choice('unique', [False, True])
    inner = {'type': 'object', 'required': ['x'], 'properties': {'x': {'type': 'array', 'uniqueItems': unique, 'items': {'type': 'integer', 'maximum': m}}, 'd': {'type': 'integer', 'default': 3}}}
    body = {'type': 'object', 'properties': {'o': inner, 'l': {'type': 'array', 'items': inner}}}
    if kind == 'allOf':
        body = {'allOf': [{'type': 'object', 'properties': {'l': {'type': 'array', 'items': inner}}}, {'type': 'object', 'properties': {'o': inner}}]}
    if kind == 'kinds':
        # the name of the kind is the definition's, not the caller's
        body['discriminator'] = inner['discriminator'] = 'kind'
    where = 'formData' if kind == 'form' else 'query'
    ps = [{'name': 'q', 'in': where, 'type': 'array', 'items': {'type': 'integer', 'maximum': m}, 'collectionFormat': 'multi', 'uniqueItems': unique},
          {'name': 'r', 'in': 'query', 'type': 'integer', 'required': True}]
    if kind in ('body', 'allOf', 'kinds'):
        ps.append({'name': 'b', 'in': 'body', 'schema': body})
    a = app(op_doc(ps))
    before = plain(a.dump())
    args = {'q': [-1, i, -1], 'r': 1}
    if kind in ('body', 'allOf', 'kinds'):
        args = {'r': 1, 'b': {'l': [{'x': [-1]}, {'x': [i, -1, i], 'd': 4}], 'o': {'x': [-1, i, -1]}}}
    if kind == 'kinds':
        args['b'].update(kind='K', more=1)
        args['b']['o']['kind'] = 'L'
    elif kind == 'unknown':
        args['zz'] = [1]
    elif kind == 'missing':
        del args['r']
    copy = plain(args)
    e, r = S.fn_raises(Exception, lambda: a.op['theOp'](**args))
    S.check(S.iff(e is None, S.all(i <= m, kind not in ('unknown', 'missing'), S.any(m >= -1))), 'a call is not judged by its arguments')
    S.check(S.same(plain(args), copy), "the caller's arguments are changed")
    S.check(S.same(plain(a.dump()), before), 'the description is changed')
    again = {'r': 2}
    if kind in ('body', 'allOf', 'kinds'):
        again['b'] = {}
    f = app(op_doc(ps))
    x, y = a.op['theOp'](**again)[0].prepare('http'), f.op['theOp'](**again)[0].prepare('http')
    S.check(S.same([x.url, x.query, x.data, plain(x._p), sorted(x.header.items())], [y.url, y.query, y.data, plain(y._p), sorted(y.header.items())]), 'a call after a refused one is different')
