"""C05 object conversion"""
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import produce

MISSING = ['missing']


def subset(S, tag, names):
    return [n for n in names if S.choice('%s_%s' % (tag, n), [False, True])]


def decide(S, d, given, want, ok, ctx=None):
    before = dict(given)
    try:
        r = produce(d, given, ctx)
    except Exception as e:
        S.check(S.not_(ok), 'an allowed object is rejected: ' + type(e).__name__)
        S.observe('r', 'rejected')
        S.check(S.same(given, before), 'the caller\'s mapping is changed')
        return
    S.check(ok, 'a forbidden object is accepted')
    S.check(S.same(dict(r), want), 'properties are changed, lost or invented')
    S.observe('r', dict(r))
    S.check(S.same(given, before), 'the caller\'s mapping is changed')


def addp(S, d, kind):
    """declare additionalProperties; returns what is done to an undeclared value"""
    if kind == 'true':
        d['additionalProperties'] = True
    elif kind == 'false':
        d['additionalProperties'] = False
        return lambda v: (True, MISSING)
    elif kind == 'schema':
        m = S.int('amax', -50, 50)
        d['additionalProperties'] = {'type': 'integer', 'maximum': m}
        return lambda v: (v <= m, v)
    return lambda v: (True, v)


KINDS = ['absent', 'true', 'false', 'schema']


@obligation('presence', bounds='3 declared properties (integer with maximum, text with minLength, integer with default), every subset given and required, an undeclared key given or not, additionalProperties absent/true/false/schema',
            cases=[dict(kind=k, typed=t) for k in KINDS for t in (0, 1)])
def presence(S, kind, typed):
    m, n = S.int('max', -50, 50), S.int('min', 0, 3)
    dv = S.int('default', -50, 50)
    d = {'properties': {'a': {'type': 'integer', 'maximum': m}, 'b': {'type': 'string', 'minLength': n},
                        'c': {'type': 'integer', 'default': dv}}}
    if typed:
        d['type'] = 'object'
    req = subset(S, 'req', ['a', 'b', 'c'])
    if req:
        d['required'] = req
    extra = addp(S, d, kind)
    given, want, ok = {}, {}, []
    if S.choice('has_a', [False, True]):
        v = given['a'] = want['a'] = S.int('a', -60, 60)
        ok.append(v <= m)
    if S.choice('has_b', [False, True]):
        v = given['b'] = want['b'] = S.str('b', 2)
        ok.append(len(v) >= n)
    if S.choice('has_c', [False, True]):
        given['c'] = want['c'] = S.int('c', -60, 60)
    else:
        want['c'] = dv
    if S.choice('has_x', [False, True]):
        v = given['x'] = S.int('x', -60, 60)
        o, w = extra(v)
        ok.append(o)
        if w is not MISSING:
            want['x'] = w
    for k in req:
        ok.append(k in want)
    decide(S, d, given, want, S.all(*ok))


@obligation('names', bounds='declared names, required name and given names are texts of up to 2 characters that may coincide; 2 declared, 2 given, 1 required',
            cases=[dict(kind=k) for k in KINDS])
def names(S, kind):
    p1, p2 = S.str('p1', 2, 1), S.str('p2', 2, 1)
    g1, g2 = S.str('g1', 2, 1), S.str('g2', 2, 1)
    r = S.str('r', 2, 1)
    S.assume(p1 != p2)
    S.assume(g1 != g2)
    m = S.int('max', -50, 50)
    d = {'type': 'object', 'required': [r], 'properties': {p1: {'type': 'integer', 'maximum': m}, p2: {'type': 'integer'}}}
    extra = addp(S, d, kind)
    v1, v2 = S.int('v1', -60, 60), S.int('v2', -60, 60)
    given, want, ok = {g1: v1, g2: v2}, {}, []
    for g, v in ((g1, v1), (g2, v2)):
        if g == p1:
            ok.append(v <= m)
            want[g] = v
        elif g == p2:
            want[g] = v
        else:
            o, w = extra(v)
            ok.append(o)
            if w is not MISSING:
                want[g] = w
    ok.append(r in want)
    decide(S, d, given, want, S.all(*ok))


@obligation('additional', bounds='up to 3 undeclared keys converted by an additionalProperties schema that is an integer, text, object or array schema with a limit')
def additional(S):
    kind = S.choice('kind', ['integer', 'string', 'object', 'array'])
    m = S.int('lim', 0, 3)
    inner = {'integer': {'type': 'integer', 'maximum': m}, 'string': {'type': 'string', 'maxLength': m},
             'object': {'type': 'object', 'properties': {'q': {'type': 'integer', 'maximum': m}}, 'required': ['q']},
             'array': {'type': 'array', 'maxItems': m, 'items': {'type': 'integer'}}}[kind]
    given, ok = {}, []
    n = S.choice('n', [0, 1, 2, 3])
    for i in range(n):
        if kind == 'integer':
            v = S.int('v%d' % i, -5, 5)
            ok.append(v <= m)
        elif kind == 'string':
            v = S.str('v%d' % i, 2)
            ok.append(len(v) <= m)
        elif kind == 'object':
            v = {'q': S.int('v%d' % i, -5, 5)} if S.choice('q%d' % i, [False, True]) else {}
            ok.append(v['q'] <= m if v else False)
        else:
            v = [S.int('v%d%d' % (i, j), -5, 5) for j in range(S.choice('n%d' % i, [0, 1]))]
            ok.append(len(v) <= m)
        given['xyz'[i]] = v
    decide(S, {'type': 'object', 'additionalProperties': inner}, given, dict(given), S.all(*ok))


@obligation('any-value', bounds='an undeclared key given null, false, 0, an empty text, list or mapping, an integer, a text, a list or a mapping, in the object or in one inside; additionalProperties absent or true')
def any_value(S):
    v = S.choice('v', [None, False, 0, '', 'list', 'dict', 'int', 'str'])
    v = {'list': [], 'dict': {}, 'int': S.int('i', -5, 5), 'str': S.str('s', 1)}.get(v, v) if isinstance(v, str) else v
    if S.choice('wrap', [False, True]):
        v = S.choice('in', [[v], {'k': v}, [{'k': v}]])
    d = {'type': 'object', 'properties': {'a': {'type': 'integer'}}}
    addp(S, d, S.choice('kind', ['absent', 'true']))
    given = {'a': S.int('a', -5, 5), S.choice('name', ['x', 'x-ext', '$ref', '']): v}
    if S.choice('nest', [False, True]):
        d, given = {'type': 'object', 'properties': {'o': d}}, {'o': given}
    decide(S, d, given, given, True)


@obligation('nested', bounds='objects two levels deep and arrays of up to 2 objects, limits, required, defaults and additionalProperties of the inner object')
def nested(S):
    where = S.choice('where', ['prop', 'items', 'prop-items'])
    kind = S.choice('kind', KINDS)
    m, dv = S.int('max', -50, 50), S.int('default', -50, 50)
    inner = {'type': 'object', 'properties': {'a': {'type': 'integer', 'maximum': m}, 'c': {'type': 'integer', 'default': dv}}}
    extra = addp(S, inner, kind)
    if S.choice('req', [False, True]):
        inner['required'] = ['a']
    ok = []

    def one(i):
        g, w = {}, {}
        if S.choice('has_a%d' % i, [False, True]):
            v = g['a'] = w['a'] = S.int('a%d' % i, -60, 60)
            ok.append(v <= m)
        elif 'required' in inner:
            ok.append(False)
        if S.choice('has_c%d' % i, [False, True]):
            g['c'] = w['c'] = S.int('c%d' % i, -60, 60)
        else:
            w['c'] = dv
        if S.choice('has_x%d' % i, [False, True]):
            v = g['x'] = S.int('x%d' % i, -60, 60)
            o, x = extra(v)
            ok.append(o)
            if x is not MISSING:
                w['x'] = x
        return g, w

    if where == 'prop':
        d = {'type': 'object', 'properties': {'o': inner}}
        g, w = one(0)
        given, want = {'o': g}, {'o': w}
    else:
        g, w = one(0)
        gs, ws = [g, {'a': S.int('a1', -60, 60), 'c': 1}], [w, None]
        ok.append(gs[1]['a'] <= m)
        ws[1] = dict(gs[1])
        arr = {'type': 'array', 'items': inner}
        if where == 'items':
            d, given, want = {'type': 'object', 'additionalProperties': arr}, {'l': gs}, {'l': ws}
        else:
            d, given, want = {'type': 'object', 'properties': {'l': arr}}, {'l': gs}, {'l': ws}
    decide(S, d, given, want, S.all(*ok))


@obligation('defaults', bounds='default values of every type (read-only or not, in read context), also 0, empty and false ones; given values, also falsy ones, win over them')
def defaults(S):
    kind = S.choice('kind', ['integer', 'string', 'boolean', 'array', 'object'])
    dv, v = {'integer': lambda: (S.int('d', -3, 3), S.int('v', -3, 3)),
             'string': lambda: (S.str('d', 1), S.str('v', 1)),
             'boolean': lambda: (S.choice('d', [False, True]), S.choice('v', [False, True])),
             'array': lambda: ([S.int('d', -3, 3)] if S.choice('dn', [0, 1]) else [], [S.int('v', -3, 3)] if S.choice('vn', [0, 1]) else []),
             'object': lambda: ({'q': S.int('d', -3, 3)} if S.choice('dn', [0, 1]) else {}, {'q': S.int('v', -3, 3)} if S.choice('vn', [0, 1]) else {})}[kind]()
    p = {'type': kind, 'default': dv}
    if kind == 'array':
        p['items'] = {'type': 'integer'}
    if S.choice('ro', [False, True]):
        p['readOnly'] = True
    d = {'type': 'object', 'properties': {'a': p, 'b': {'type': 'integer'}}, 'required': ['a']}
    given = {'a': v} if S.choice('has', [False, True]) else {}
    decide(S, d, given, {'a': v} if given else {'a': dv}, True)


@obligation('read-only', bounds='a read-only property at the top, in a nested object, in an item or in an additional property, in read and write context')
def readonly(S):
    where = S.choice('where', ['top', 'prop', 'items', 'addp', 'allOf', 'param-items'])
    o = {'type': 'object', 'properties': {'a': {'type': 'integer', 'readOnly': S.choice('ro', [False, True])}, 'b': {'type': 'integer'}}}
    ro = o['properties']['a']['readOnly']
    inner = {}
    if S.choice('has_a', [False, True]):
        inner['a'] = S.int('a', -5, 5)
    if S.choice('has_b', [False, True]):
        inner['b'] = S.int('b', -5, 5)
    d, given = {'top': (o, inner),
                'prop': ({'type': 'object', 'properties': {'o': o}}, {'o': inner}),
                'items': ({'type': 'object', 'properties': {'o': {'type': 'array', 'items': o}}}, {'o': [inner]}),
                'addp': ({'type': 'object', 'additionalProperties': o}, {'o': inner}),
                'allOf': ({'allOf': [{'type': 'object'}, o]}, inner),
                'param-items': ({'type': 'object', 'properties': {'o': {'type': 'array', 'items': {'type': 'array', 'items': o}}}}, {'o': [[], [inner]]})}[where]
    read = S.choice('read', [False, True])
    decide(S, d, given, given, read or not ro or 'a' not in inner, dict(read=read))
