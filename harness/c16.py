"""C16 composed headers contain every given header"""
from symx.api import obligation
from pyswagger.core import BaseClient
from harness.util import app, op_doc

A = 'ab'


def request(S, own):
    ps = [{'name': n, 'in': 'header', 'type': 'string'} for n in ('a', 'bb')]
    req, _ = app(op_doc(ps)).op['theOp'](**own)
    req.prepare()
    return req


def setup(S, n, kind):
    own = {}
    for k in ('a', 'bb'):
        if S.choice('own-' + k, [False, True]):
            own[k] = S.str('v-' + k, 1, 1 if n > 1 else 0, [(32, 126)])
    req = request(S, own)
    pairs = [(S.str('k%d' % i, 2, 1, A), S.str('w%d' % i, 1, 1 if n > 1 else 0, [(32, 126)])) for i in range(n)]
    if kind == 'dict':
        d = {}
        for k, v in pairs:
            d[k] = v
        return req, list(own.items()), d, list(d.items())
    return req, list(own.items()), list(pairs), pairs


def after(S, req, own, headers, pairs, opt, copy):
    S.check(S.same(sorted((k, v) for k, v in req.header.items()), sorted(own)), "the request's headers are changed")
    S.check(S.same(list(headers.items()) if isinstance(headers, dict) else headers, list(pairs)), "the caller's headers are changed")
    S.check(S.same(opt, copy), "the caller's options are changed")


def bag(S, got, want):
    """same pairs, the order of equal names kept"""
    got = [tuple(g) for g in got]
    if len(got) != len(want):
        return False
    cs = []
    for i, w in enumerate(want):
        # the n-th value of a name is the n-th value given for it
        nth = [g for g in got if g[0] == w[0]]
        k = len([1 for x in want[:i] if x[0] == w[0]])
        cs.append(k < len(nth) and S.same(nth[k][1], w[1]))
    return S.all(*cs)


CASES = [dict(n=n, kind=k) for k in ('list', 'dict') for n in (0, 1, 2)]


@obligation('list', bounds='request headers a and bb, each there or not; up to 2 custom headers with names of 1 or 2 characters of "ab" (may coincide), values up to 1 character (of 1 with two custom headers); as list or mapping, options given or not',
            cases=CASES, thorough=CASES + [dict(n=3, kind='list')])
def aslist(S, n, kind):
    req, own, headers, pairs = setup(S, n, kind)
    opt = S.choice('opt', [None, {}, {'join_headers': False}, {'x': 1}] if n < 2 else [None, {'join_headers': False}])
    copy = None if opt is None else dict(opt)
    r = BaseClient().compose_headers(req, headers, opt)
    S.check(isinstance(r, list), 'the result is no list')
    S.check(bag(S, r, own + pairs), 'headers are lost, invented or reordered')
    after(S, req, own, headers, pairs, opt, copy)


@obligation('joined', bounds='as list, joined; the result as list or mapping', cases=CASES, thorough=CASES + [dict(n=3, kind='list')])
def joined(S, n, kind):
    req, own, headers, pairs = setup(S, n, kind)
    opt = {'join_headers': True, 'other': 1}
    copy = dict(opt)
    as_dict = S.choice('as_dict', [False, True])
    r = BaseClient().compose_headers(req, headers, opt, as_dict=as_dict)
    S.check(isinstance(r, dict) if as_dict else isinstance(r, list), 'the result has another type')
    r = list(r.items()) if as_dict else r
    want = {}
    for k, v in own + pairs:
        want[k] = want[k] + ',' + v if k in want else v
    S.check(bag(S, r, list(want.items())), 'headers are lost, invented or joined differently')
    after(S, req, own, headers, pairs, opt, copy)


@obligation('dict', bounds='as list, as mapping without joining', cases=CASES, thorough=CASES + [dict(n=3, kind='list')])
def asdict(S, n, kind):
    req, own, headers, pairs = setup(S, n, kind)
    opt = S.choice('opt', [None, {'join_headers': False}])
    copy = None if opt is None else dict(opt)
    r = BaseClient().compose_headers(req, headers, opt, as_dict=True)
    S.check(isinstance(r, dict), 'the result is no mapping')
    want = {}
    for k, v in pairs + own:
        want[k] = v
    S.check(S.same(r, want), 'headers are lost or invented')
    r['new'] = 'x'
    after(S, req, own, headers, pairs, opt, copy)


@obligation('none', bounds='no custom headers, with any option')
def none(S):
    own = {}
    for k in ('a', 'bb'):
        if S.choice('own-' + k, [False, True]):
            own[k] = S.str('v-' + k, 2, 0)
    req = request(S, own)
    opt = S.choice('opt', [None, {}, {'join_headers': True}])
    copy = None if opt is None else dict(opt)
    as_dict = S.choice('as_dict', [False, True])
    r = BaseClient().compose_headers(req, None, opt, as_dict=as_dict)
    S.check(S.same(sorted((k, v) for k, v in (r.items() if as_dict else r)), sorted(own.items())), 'headers are lost or invented')
    after(S, req, list(own.items()), [], [], opt, copy)


@obligation('other', bounds='custom headers that are neither list nor mapping are refused')
def other(S):
    req = request(S, {'a': 'x'})
    v = S.choice('v', [1, 'text', 2.5])
    opt = S.choice('opt', [None, {'join_headers': True}])
    e, _ = S.fn_raises(Exception, lambda: BaseClient().compose_headers(req, v, opt, as_dict=S.choice('d', [False, True])))
    S.check(e is not None, 'headers of another type are accepted')
