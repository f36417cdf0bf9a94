"""C03 arrays"""
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import produce


def limits(S, d, n, has_max, has_min):
    a = b = True
    if has_max:
        m = d['maxItems'] = S.int('maxItems', 0, 5)
        a = n <= m
    if has_min:
        m = d['minItems'] = S.int('minItems', 0, 5)
        b = n >= m
    return S.all(a, b)


def first_occurrences(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return out


def decide(S, d, given, want, ok, kind='schema'):
    before = list(given) if isinstance(given, list) else None
    try:
        r = produce(d, given, kind=kind)
    except ValidationError:
        S.check(S.not_(ok), 'an allowed array is rejected')
        S.observe('r', 'rejected')
        return
    S.check(ok, 'a forbidden array is accepted')
    S.check(S.same(list(r), want), 'items are changed, lost, added or reordered')
    S.observe('r', list(r))
    if before is not None:
        S.check(S.same(given, before), 'the caller\'s list is changed')


@obligation('integers', bounds='lists of up to 4 integers (any), maxItems/minItems each absent or 0..5, uniqueItems absent/false/true; schema and parameter',
            cases=[dict(lim=l, uniq=u, kind=k) for l in range(4) for u, k in ((None, 'schema'), (False, 'param'), (True, 'schema'), (True, 'param'))])
def integers(S, lim, uniq, kind):
    n = S.choice('n', [0, 1, 2, 3, 4])
    vals = [S.int('v%d' % i, -2 ** 40, 2 ** 40) for i in range(n)]
    d = {'type': 'array', 'items': {'type': 'integer'}}
    if uniq is not None:
        d['uniqueItems'] = uniq
    want = first_occurrences(vals) if uniq else vals
    ok = limits(S, d, len(want), lim & 1, lim & 2)
    decide(S, d, vals, want, ok, kind)


@obligation('strings', bounds='lists of up to 3 texts of up to 2 characters with item length limits, maxItems/minItems 0..5, uniqueItems')
def strings(S):
    n = S.choice('n', [0, 1, 2, 3])
    vals = [S.str('v%d' % i, 2 if n < 3 else 1) for i in range(n)]
    uniq = S.choice('uniq', [False, True])
    im = S.int('maxLength', 0, 2)
    d = {'type': 'array', 'items': {'type': 'string', 'maxLength': im}, 'uniqueItems': uniq}
    want = first_occurrences(vals) if uniq else vals
    ok = limits(S, d, len(want), 1, 1)
    decide(S, d, vals, want, S.all(ok, *[len(v) <= im for v in want]))


@obligation('item-limits', bounds='lists of up to 3 integers, item maximum any integer: one bad item fails the conversion')
def itemlimits(S):
    n = S.choice('n', [1, 2, 3])
    vals = [S.int('v%d' % i, -1000, 1000) for i in range(n)]
    m = S.int('max', -1000, 1000)
    decide(S, {'type': 'array', 'items': {'type': 'integer', 'maximum': m}}, vals, vals,
           S.all(*[v <= m for v in vals]), S.choice('kind', ['schema', 'param']))


@obligation('nested', bounds='arrays of up to 2 arrays of up to 2 integers; limits of the outer and of the inner arrays 0..3')
def nested(S):
    n = S.choice('n', [0, 1, 2])
    vals = []
    for i in range(n):
        k = S.choice('k%d' % i, [0, 1, 2])
        vals.append([S.int('v%d%d' % (i, j), -5, 5) for j in range(k)])
    om, im = S.int('omax', 0, 3), S.int('imax', 0, 3)
    on, inn = S.int('omin', 0, 3), S.int('imin', 0, 3)
    d = {'type': 'array', 'maxItems': om, 'minItems': on,
         'items': {'type': 'array', 'maxItems': im, 'minItems': inn, 'items': {'type': 'integer'}}}
    ok = S.all(n <= om, n >= on, *[S.all(len(v) <= im, len(v) >= inn) for v in vals])
    try:
        r = produce(d, vals, kind=S.choice('kind', ['schema', 'param']))
    except ValidationError:
        S.check(S.not_(ok), 'an allowed array is rejected')
        return
    S.check(ok, 'a forbidden array is accepted')
    S.check(S.same([list(x) for x in r], vals), 'items are changed, lost, added or reordered')


@obligation('objects', bounds='arrays of up to 2 objects with an integer property, uniqueItems absent/true')
def objects(S):
    n = S.choice('n', [0, 1, 2])
    vals = [{'a': S.int('v%d' % i, -5, 5)} for i in range(n)]
    uniq = S.choice('uniq', [False, True])
    mx = S.int('maxItems', 0, 3)
    d = {'type': 'array', 'uniqueItems': uniq, 'maxItems': mx,
         'items': {'type': 'object', 'properties': {'a': {'type': 'integer'}}}}
    want = first_occurrences(vals) if uniq else vals
    ok = len(want) <= mx
    try:
        r = produce(d, vals)
    except ValidationError:
        S.check(S.not_(ok), 'an allowed array is rejected')
        return
    S.check(ok, 'a forbidden array is accepted')
    S.check(S.same([x['a'] for x in r], [x['a'] for x in want]), 'items are changed, lost, added or reordered')


@obligation('tuple-and-text', bounds='tuples of up to 3 integers; csv text of up to 3 one-digit integers, for a parameter with limits')
def texts(S):
    n = S.choice('n', [1, 2, 3])
    vals = [S.int('v%d' % i, 0, 9) for i in range(n)]
    as_text = S.choice('text', [False, True])
    given = ','.join([str(v) for v in vals]) if as_text else tuple(vals)
    d = {'type': 'array', 'items': {'type': 'integer'}}
    ok = limits(S, d, n, 1, 1)
    decide(S, d, given, vals, ok, 'param')


@obligation('unique-tuple', bounds='tuples of up to 3 integers and csv texts of up to 3 one-letter texts with uniqueItems')
def unique(S):
    n = S.choice('n', [0, 1, 2, 3])
    if S.choice('text', [False, True]):
        vals = [S.str('v%d' % i, 1, 0, [(97, 122)]) for i in range(n)]
        S.assume(n > 0)
        given, it = ','.join(vals), 'string'
    else:
        vals = [S.int('v%d' % i, -9, 9) for i in range(n)]
        given, it = tuple(vals), 'integer'
    d = {'type': 'array', 'items': {'type': it}, 'uniqueItems': True}
    want = first_occurrences(vals)
    ok = limits(S, d, len(want), 1, 1)
    decide(S, d, given, want, ok, S.choice('kind', ['schema', 'param']))


@obligation('unique-objects', bounds='arrays of 2 or 3 objects of two members (integers -2..2), any written order of the members, uniqueItems, with item schemas of declared or any members or none; first occurrences by the values of the members',
            cases=[dict(n=2, items=i) for i in ('declared', 'open', 'none')] + [dict(n=3, items='open')])
def unique_objects(S, n, items):
    vals = []
    for i in range(n):
        a, b = S.int('a%d' % i, -2, 2), S.int('b%d' % i, -2, 2)
        vals.append({'b': b, 'a': a} if S.choice('turned%d' % i, [False, True]) else {'a': a, 'b': b})
    it = {'declared': {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'integer'}}}, 'open': {'type': 'object', 'additionalProperties': True}, 'none': {}}[items]
    want = first_occurrences(vals)
    r = produce({'type': 'array', 'uniqueItems': True, 'items': it}, vals)
    S.check(len(r) == len(want), 'items are lost, or a duplicate is kept')
    S.check(S.all(*[S.all(x['a'] == w['a'], x['b'] == w['b']) for x, w in zip(list(r), want)]), 'other items are kept, or their order is another one')


@obligation('unique-any', bounds='arrays of up to 3 items without declared type: integers -2..9, texts of up to 1 character of "0-9", lists of one of both, null excluded; uniqueItems: an integer and a text of the same digits differ')
def unique_any(S):
    vals = []
    for i in range(S.choice('n', [1, 2, 3])):
        k = S.choice('kind%d' % i, ['int', 'str', 'list'])
        v = S.str('s%d' % i, 1, 1, [(48, 57)]) if k == 'str' else S.int('i%d' % i, -2, 9)
        vals.append([v] if k == 'list' else v)
    want = first_occurrences(vals)
    r = produce({'type': 'array', 'uniqueItems': True, 'items': {}}, vals)
    S.check(S.same(list(r), want), 'other items are kept, or their order is another one')
