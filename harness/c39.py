"""C39 converted objects behave as the data they were made from"""
import copy
import json
from symx.api import obligation
from pyswagger.primitives import Model
from harness.util import produce, app, op_doc

NAMES = ['a', 'b', 'c']


def obj(S, tag, n, alphabet='abc'):
    """names of 1 letter with integers or None"""
    d = {}
    for i in range(n):
        k = S.str('%sk%d' % (tag, i), 1, 1, alphabet)
        d[k] = S.int('%sv%d' % (tag, i), -9, 9) if S.choice('%sn%d' % (tag, i), [True, False]) else None
    return d


def there(d):
    return dict((k, v) for k, v in d.items() if v is not None)


def same(S, x, y):
    """members that are None count as missing"""
    x, y = there(x), there(y)
    if len(x) != len(y):
        return False
    return S.all(*[S.any(*[S.all(S.same(k, l), S.same(v, w)) for l, w in y.items()]) for k, v in x.items()])


ANY = {'type': 'object', 'additionalProperties': True}


def compare(S, x, y, want):
    S.check(S.iff(x == y, want), 'equal objects are told apart, or different ones are not')
    S.check(S.iff(y == x, want), 'comparing depends on the order')
    S.check(S.iff(x != y, S.not_(want)), 'being different is not the contrary of being equal')
    S.check(S.iff(y != x, S.not_(want)), 'being different depends on the order')


@obligation('equal', bounds='two objects with up to 2 members: names of 1 letter of "abc", integers in [-9, 9] or None, made by a schema or taken as plain dict',
            cases=[dict(n=n, m=m, kind=k) for n in (0, 1, 2) for m in (0, 1, 2) for k in ('model', 'dict')])
def equal(S, n, m, kind):
    x, y = obj(S, 'x', n), obj(S, 'y', m)
    want = same(S, x, y)
    a = produce(ANY, x)
    S.check(isinstance(a, Model), 'an object is made to something else')
    compare(S, a, produce(ANY, y) if kind == 'model' else y, want)
    compare(S, a, a, True)


@obligation('nested', bounds='two objects with an object, a list of objects and an additional member below, integers in [-9, 9], members None or missing')
def nested(S):
    d = {'type': 'object', 'properties': {'o': {'type': 'object', 'properties': {'i': {'type': 'integer'}, 'j': {'type': 'integer'}}},
                                          'l': {'type': 'array', 'items': {'type': 'object', 'properties': {'i': {'type': 'integer'}}}}},
         'additionalProperties': {'type': 'object', 'properties': {'i': {'type': 'integer'}}}}
    vals = []
    for t in 'xy':
        v = {'o': {'i': S.int(t + 'i', -9, 9)}, 'l': [{'i': S.int(t + 'l%d' % i, -9, 9)} for i in range(S.choice(t + 'n', [0, 1, 2] if t == 'x' else [1]))],
             'x': {'i': S.int(t + 'x', -9, 9)}}
        if t == 'x' and S.choice(t + 'j', [False, True]):
            v['o']['j'] = None
        vals.append(v)
    x, y = vals
    want = S.all(x['o']['i'] == y['o']['i'], x['x']['i'] == y['x']['i'], len(x['l']) == 1 and x['l'][0]['i'] == y['l'][0]['i'])
    a = produce(d, x)
    compare(S, a, y, want)
    compare(S, a, produce(d, y), want)


@obligation('others', bounds='an object with up to one member beside None, a boolean, any integer in [-9, 9], texts of up to 1 character, lists with an integer or with an object')
def others(S):
    a = produce(ANY, obj(S, 'x', S.choice('n', [0, 1])))
    k = S.choice('kind', ['none', 'bool', 'int', 'str', 'list', 'list-of'])
    b = {'none': lambda: None, 'bool': lambda: S.bool('b'), 'int': lambda: S.int('i', -9, 9), 'str': lambda: S.str('s', 1), 'list': lambda: [S.int('i', -9, 9)] if S.bool('one') else [],
         'list-of': lambda: [{}, 1]}[k]()
    S.check(not (a == b), 'an object is equal to something else')
    S.check(a != b, 'an object is not different from something else')
    if k in ('int', 'str'):
        S.check(a not in [b, 1, None], 'an object is found among other values')


@obligation('attributes', bounds='members by item and by attribute: three names of up to 12 characters, declared or additional, integers in [-9, 9]; a member set either way, also to None')
def attributes(S):
    d = {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'camelCase': {'type': 'integer'}}, 'additionalProperties': {'type': 'integer'}}
    v = dict((k, S.int(k, -9, 9)) for k in ('a', 'camelCase', '_x', '__y__') if S.choice('has-' + k, [True, False]))
    m = produce(d, v)
    for k in ('a', 'camelCase', '_x', '__y__', 'none'):
        e, r = S.fn_raises((KeyError, AttributeError), getattr, m, k)
        S.check((e is None) == (k in v), 'an attribute is missing or invented')
        if e is None:
            S.check(S.same(r, v[k]) and S.same(m[k], v[k]), 'an attribute has another value')
    k = S.choice('set', ['a', 'new'])
    w = None if S.choice('none', [False, True]) else S.int('w', -9, 9)
    if S.choice('how', ['attribute', 'item']) == 'item':
        m[k] = w
    else:
        setattr(m, k, w)
    S.check(S.same(m[k], w) and S.same(getattr(m, k), w), 'a set member has another value')
    S.check(S.same(dict(m), dict(v, **{k: w})), 'setting a member changes others')


@obligation('copy', bounds='shallow and deep copies of a decoded response: object with an integer, a text of up to 1 character, a nested object, a list of objects, an unknown member; a member changed afterwards at any of four places',
            cases=[dict(deep=d) for d in (True, False)])
def copied(S, deep):
    d = {'type': 'object', 'properties': {'i': {'type': 'integer'}, 's': {'type': 'string'}, 'o': {'type': 'object', 'properties': {'i': {'type': 'integer'}}},
                                          'l': {'type': 'array', 'items': {'type': 'object', 'properties': {'i': {'type': 'integer'}}}}},
         'additionalProperties': True}
    v = {'i': S.int('i', -9, 9), 'o': {'i': S.int('oi', -9, 9)}, 'l': [{'i': S.int('li', -9, 9)}]}
    if S.choice('has-s', [True, False]):
        v['s'] = S.str('s', 1, 0, [(97, 122)])
    if S.choice('has-x', [True, False]):
        v['x'] = S.int('x', -9, 9)
    _, resp = app(op_doc([], responses={'200': {'description': 'd', 'schema': d}})).op['theOp']()
    resp.apply_with(200, json.dumps(v))
    m = resp.data
    c = copy.deepcopy(m) if deep else copy.copy(m)
    S.check(isinstance(c, Model) and c is not m, 'a copy is something else')
    S.check(S.same(dict(c), v), 'a copy has other members')
    S.check(c == m and m == c, 'a copy is not equal')
    w = S.int('w', 10, 19)
    where = S.choice('where', ['i', 'new'] + (['o', 'l'] if deep else []))
    if where in ('i', 'new'):
        c[where] = w
    else:
        (c.o if where == 'o' else c.l[0]).i = w
    S.check(S.same(dict(m), v), 'changing a copy changes the original')
    S.check(c != m and m != c, 'a changed copy is still equal')
    if deep:
        S.check(isinstance(c.o, Model) and isinstance(c.l[0], Model), 'objects inside of a copy are something else')


@obligation('again', bounds='a decoded object (integer, nested object, list, date, byte content) given as body of another request, by the same schema: the body is the one that was decoded')
def again(S):
    d = {'type': 'object', 'properties': {'i': {'type': 'integer'}, 'o': {'type': 'object', 'properties': {'s': {'type': 'string'}}},
                                          'l': {'type': 'array', 'items': {'type': 'integer'}}}}
    a = app(op_doc([{'name': 'b', 'in': 'body', 'schema': d}], method='post', responses={'200': {'description': 'd', 'schema': d}}))
    v = {'i': S.int('i', -9, 9), 'o': {'s': S.str('s', 1, 0, [(32, 126)])}, 'l': [S.int('l%d' % i, -9, 9) for i in range(S.choice('n', [0, 1, 2]))]}
    _, resp = a.op['theOp']()
    resp.apply_with(200, json.dumps(v))
    req, _ = a.op['theOp'](b=resp.data)
    req.prepare()
    S.check(S.same(json.loads(req.data), v), 'another body is sent')
    S.check(S.same(dict(resp.data), v), 'the given object is changed')
