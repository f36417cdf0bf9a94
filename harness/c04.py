"""C04 array parameters on the wire"""
from urllib.parse import unquote
from symx.api import obligation
from harness.util import produce, op_app

SEP = {'csv': ',', None: ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}


def definition(fmt, item='string', **k):
    d = {'type': 'array', 'items': {'type': item}}
    if fmt:
        d['collectionFormat'] = fmt
    d.update(k)
    return d


def texts(S, n, size, sep, tag='v', alpha=None):
    vals = [S.str('%s%d' % (tag, i), size, 0, alpha) for i in range(n)]
    for v in vals:
        S.assume(S.not_(S.contains(sep, v)))
    return vals


@obligation('text', bounds='lists of 1 to 4 texts (any Unicode, up to 2 characters, for 4 items 1) without the separator',
            cases=[dict(fmt=f, n=n) for f in (None, 'csv', 'ssv', 'tsv', 'pipes') for n in (1, 2, 3, 4)])
def text(S, fmt, n):
    sep = SEP[fmt]
    vals = texts(S, n, 2 if n < 4 else 1, sep)
    d = definition(fmt)
    t = str(produce(d, vals, kind='param'))
    S.check(S.same(t, sep.join(vals)), 'the text is not the items joined by the separator')
    S.check(S.same(t.split(sep), vals), 'splitting the text does not give the items')
    back = produce(d, t, kind='param')
    S.check(S.same(list(back), vals), 'converting the text does not give an equal array')
    S.check(S.same(str(back), t), 'the array made from the text has another text')
    S.observe('t', t)


@obligation('numbers', bounds='lists of 1 to 3 integers or booleans', cases=[dict(fmt=f) for f in (None, 'csv', 'ssv', 'tsv', 'pipes')])
def numbers(S, fmt):
    sep = SEP[fmt]
    n = S.choice('n', [1, 2, 3])
    vals = [S.int('v%d' % i, -999, 999) for i in range(n)]
    d = definition(fmt, 'integer')
    t = str(produce(d, vals, kind='param'))
    S.check(S.same(t.split(sep), [str(v) for v in vals]), 'splitting the text does not give the items')
    S.check(S.same(list(produce(d, t, kind='param')), vals), 'converting the text does not give an equal array')


@obligation('request', bounds='one array argument of 1 to 3 texts up to 1 character in path, query, header and formData (path: ASCII), every collection format; given as list or as text',
            cases=[dict(loc=l, fmt=f) for l in ('query', 'formData', 'path', 'header') for f in (None, 'csv', 'ssv', 'tsv', 'pipes')])
def request(S, loc, fmt):
    sep = SEP[fmt]
    n = S.choice('n', [1, 2, 3])
    vals = texts(S, n, 1, sep, alpha=[(32, 126)] if loc == 'path' else None)
    p = definition(fmt, name='arr', required=True, **{'in': loc})
    a = op_app([p], '/p/{arr}' if loc == 'path' else '/p', 'post')
    given = sep.join(vals) if S.choice('text', [False, True]) else vals
    req, _ = a.op['theOp'](arr=given)
    t = sep.join(vals)
    if loc == 'query':
        S.check(S.same(list(req.query), [('arr', t)]), 'query does not hold exactly the joined text')
    elif loc == 'formData':
        S.check(S.same(list(req._p['formData']), [('arr', t)]), 'form does not hold exactly the joined text')
    elif loc == 'header':
        req.prepare()
        S.check(S.same(req.header['arr'], t), 'header is not the joined text')
    else:
        req.prepare()
        S.check(S.same(unquote(req.path[len('/p/'):].replace('+', ' ')), t), 'path segment does not decode to the joined text')
        S.observe('p', req.path)


@obligation('multi', bounds='multi arrays of 0 to 3 texts of up to 2 characters in query and form, beside another argument before and after',
            cases=[dict(loc=l) for l in ('query', 'formData')])
def multi(S, loc):
    n = S.choice('n', [0, 1, 2, 3])
    vals = [S.str('v%d' % i, 2) for i in range(n)]
    p = definition('multi', name='arr', **{'in': loc})
    x, y = S.int('x', 0, 9), S.int('y', 0, 9)
    a = op_app([{'name': 'x', 'in': loc, 'type': 'integer'}, p, {'name': 'y', 'in': loc, 'type': 'integer'}], method='post')
    req, _ = a.op['theOp'](arr=vals, x=x, y=y)
    got = list(req.query) if loc == 'query' else list(req._p['formData'])
    S.check(S.same([q for q in got if q[0] == 'arr'], [('arr', v) for v in vals]), 'items are not sent one by one in order')
    S.check(S.same([q for q in got if q[0] != 'arr'], [('x', str(x)), ('y', str(y))]), 'the other arguments are not sent once')
    S.check(S.same(list(req._p['formData']) if loc == 'query' else list(req.query), []), 'sent at another place, too')


@obligation('two-formats', bounds='two array arguments of 2 one-letter texts with any two collection formats, in any two places')
def two(S):
    f1 = S.choice('f1', ['csv', 'ssv', 'tsv', 'pipes', 'multi'])
    f2 = S.choice('f2', ['csv', 'ssv', 'tsv', 'pipes', 'multi'])
    v1 = [S.str('v%d' % i, 1, 1, 'abc') for i in range(2)]
    v2 = [S.str('w%d' % i, 1, 1, 'abc') for i in range(2)]
    a = op_app([definition(f1, name='a', **{'in': 'query'}), definition(f2, name='b', **{'in': 'query'})])
    req, _ = a.op['theOp'](a=v1, b=v2)
    want = []
    for nm, f, v in (('a', f1, v1), ('b', f2, v2)):
        want += [(nm, x) for x in v] if f == 'multi' else [(nm, SEP[f].join(v))]
    S.check(S.same(list(req.query), want), 'query is not made by each argument\'s own format')


@obligation('nested', bounds='arrays of 1 to 2 arrays of 1 to 2 integers, every pair of different separators')
def nested(S):
    fs = ['csv', 'ssv', 'tsv', 'pipes']
    f1, f2 = S.choice('f1', fs), S.choice('f2', fs)
    S.assume(f1 != f2)
    n = S.choice('n', [1, 2])
    vals = []
    for i in range(n):
        k = S.choice('k%d' % i, [1, 2])
        vals.append([S.int('v%d%d' % (i, j), -9, 9) for j in range(k)])
    d = {'type': 'array', 'collectionFormat': f1, 'items': {'type': 'array', 'collectionFormat': f2, 'items': {'type': 'integer'}}}
    t = str(produce(d, vals, kind='param'))
    S.check(S.same(t, SEP[f1].join([SEP[f2].join([str(v) for v in x]) for x in vals])), 'nested arrays are not joined by their own separators')
    S.check(S.same([list(x) for x in produce(d, t, kind='param')], vals), 'converting the text does not give equal arrays')
