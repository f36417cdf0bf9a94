"""C06 allOf"""
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import produce, app, doc

ORDERS = {1: [[0]], 2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}


def ordered(S, ms, tag='order'):
    return [ms[i] for i in S.choice(tag, ORDERS[len(ms)])]


def convert(S, d, v, ms=None, ref=False):
    """ms: the members; with ref they become definitions of a document"""
    if not ref:
        d = dict(d, allOf=ms)
        return produce(d, v)
    defs = dict(('M%d' % i, m) for i, m in enumerate(ms))
    defs['T'] = dict(d, allOf=[{'$ref': '#/definitions/M%d' % i} for i in range(len(ms))])
    a = app(doc({}, definitions=defs))
    return a.prim_factory.produce(a.resolve('#/definitions/T'), v)


def decide(S, d, ms, v, ok, want, ref=False):
    try:
        r = convert(S, d, v, ms, ref)
    except Exception as e:
        S.check(S.not_(ok), 'an allowed value is rejected: ' + type(e).__name__)
        return
    S.check(ok, 'a forbidden value is accepted')
    S.check(S.same(r if not isinstance(r, dict) else dict(r), want), 'the value is changed')
    S.observe('r', r if not isinstance(r, dict) else dict(r))


@obligation('integer', bounds='integers in [-1000, 1000]; enclosing schema and 2 members with maximum / minimum / multipleOf (limits -50..50, multiples 1..3), in any order, type given in any subset of the places',
            cases=[dict(ref=r, typed=t) for r in (0, 1) for t in range(1, 8) if not (r and t not in (1, 2, 7))])
def integer(S, ref, typed):
    v = S.int('v', -1000, 1000)
    mx, mn, mu = S.int('max', -50, 50), S.int('min', -50, 50), S.choice('mul', [1, 2, 3])
    parts = [{'maximum': mx}, {'minimum': mn}, {'multipleOf': mu}]
    for i in range(3):
        if typed >> i & 1:
            parts[i]['type'] = 'integer'
    parts = ordered(S, parts)
    decide(S, parts[0], parts[1:], v, S.all(v <= mx, v >= mn, v % mu == 0), v, ref)


@obligation('members', bounds='integers; 3 members each with a maximum in [-50, 50], enclosing schema without or with type and maximum')
def members(S):
    v = S.int('v', -1000, 1000)
    ms, ok = [], []
    for i in range(3):
        m = S.int('max%d' % i, -50, 50)
        ms.append({'type': 'integer', 'maximum': m})
        ok.append(v <= m)
    d = {}
    if S.choice('typed', [False, True]):
        m = S.int('max', -50, 50)
        d = {'type': 'integer', 'maximum': m}
        ok.append(v <= m)
    decide(S, d, ms, v, S.all(*ok), v)


@obligation('text', bounds='texts of up to 2 characters; maxLength, minLength and enum in 2 members and the enclosing schema, any order',
            cases=[dict(typed=t) for t in range(1, 8)])
def text(S, typed):
    v = S.str('v', 2)
    mx, mn, e = S.int('max', 0, 3), S.int('min', 0, 3), S.str('e', 2)
    parts = [{'maxLength': mx}, {'minLength': mn}, {'enum': [e, 'x']}]
    for i in range(3):
        if typed >> i & 1:
            parts[i]['type'] = 'string'
    parts = ordered(S, parts)
    decide(S, parts[0], parts[1:], v, S.all(len(v) <= mx, len(v) >= mn, S.any(v == e, v == 'x')), v)


@obligation('number', bounds='numbers k/4; exclusive limits in 2 members')
def number(S):
    v = S.float('v', 2, -100, 100)
    mx, mn = S.int('max', -20, 20), S.int('min', -20, 20)
    ms = ordered(S, [{'type': 'number', 'maximum': mx, 'exclusiveMaximum': True}, {'type': 'number', 'minimum': mn, 'exclusiveMinimum': True}])
    decide(S, {}, ms, v, S.all(v < mx, v > mn), v)


@obligation('objects', bounds='objects with up to 3 given keys; two members and the enclosing schema each declare one property (with a limit) and any one required name, any order',
            cases=[dict(ref=r, typed=t) for r in (0, 1) for t in ([0, 7] if r else [0, 1, 6, 7])])
def objects(S, ref, typed):
    ks = ['a', 'b', 'c']
    parts, lims, given, ok = [], {}, {}, []
    for i, k in enumerate(ks):
        m = S.int('max_' + k, -50, 50)
        p = {'properties': {k: {'type': 'integer', 'maximum': m}}}
        if typed >> i & 1:
            p['type'] = 'object'
        parts.append(p)
        if S.choice('has_' + k, [False, True]):
            v = given[k] = S.int(k, -60, 60)
            ok.append(v <= m)
    if S.choice('has_x', [False, True]):
        given['x'] = S.int('x', -60, 60)
    r = S.choice('required', [None, 'a', 'b', 'c', 'x'])
    if r:
        parts[S.choice('where', [0, 1, 2])]['required'] = [r]
        ok.append(r in given)
    parts = ordered(S, parts) if not ref else parts
    decide(S, parts[0], parts[1:], given, S.all(*ok), dict(given), ref)


@obligation('conversion', bounds='a date and a byte property in different members: both are converted, in any order; defaults of any member are filled; falsy values are kept')
def conversion(S):
    dv = S.int('default', -5, 5)
    ms = ordered(S, [{'type': 'object', 'properties': {'d': {'type': 'string', 'format': 'date'}}},
                     {'type': 'object', 'properties': {'e': {'type': 'string', 'format': 'date'}}},
                     {'type': 'object', 'properties': {'n': {'type': 'integer', 'default': dv}}}])
    given = {}
    if S.choice('has_d', [False, True]):
        given['d'] = '2020-01-02'
    if S.choice('has_e', [False, True]):
        given['e'] = '2021-02-03'
    if S.choice('has_n', [False, True]):
        given['n'] = S.int('n', -5, 5)
    r = convert(S, S.choice('enc', [{}, {'type': 'object'}, {'type': 'object', 'properties': {'z': {'type': 'integer'}}}]), given, ms)
    S.check(sorted(r.keys()) == sorted(set(given) | set(['n'])), 'keys are lost or invented')
    for k in ('d', 'e'):
        if k in given:
            S.check(type(r[k]).__name__ == 'Date', 'a property is not converted by its definition')
            S.check(S.same(str(r[k]), given[k]), 'a date is changed')
    S.check(S.same(r['n'], given['n'] if 'n' in given else dv), 'a default is not filled or not overridden')


@obligation('nesting', bounds='a member that is itself an allOf, first or last, two levels; integers and objects',
            cases=[dict(kind=k) for k in ('integer', 'object')])
def nesting(S, kind):
    ms, ok = [], []
    ks = ['a', 'b', 'c']
    given = {}
    v = S.int('v', -60, 60)
    for i in range(3):
        m = S.int('max%d' % i, -50, 50)
        if kind == 'integer':
            ms.append({'type': 'integer', 'maximum': m})
            ok.append(v <= m)
        else:
            ms.append({'type': 'object', 'properties': {ks[i]: {'type': 'integer', 'maximum': m}}, 'required': [ks[i]]})
            if S.choice('has%d' % i, [False, True]):
                x = given[ks[i]] = S.int('v%d' % i, -60, 60)
                ok.append(x <= m)
            else:
                ok.append(False)
    if kind == 'integer':
        given = v
    inner = {'allOf': [ms[0], ms[1]]}
    shape = S.choice('shape', [0, 1, 2, 3])
    top = [[inner, ms[2]], [ms[2], inner], [{'allOf': [inner]}, ms[2]], [ms[2], {'allOf': [inner]}]][shape]
    decide(S, {}, top, given, S.all(*ok), given)


@obligation('diamond', bounds='B and C both built on A by $ref, D on B and C, in any order; three integer properties with limits')
def diamond(S):
    ms, ok, given = {}, [], {}
    for k in 'abc':
        m = S.int('max_' + k, -50, 50)
        ms[k] = {'type': 'object', 'properties': {k: {'type': 'integer', 'maximum': m}}}
        x = given[k] = S.int(k, -60, 60)
        ok.append(x <= m)
    ref = lambda n: {'$ref': '#/definitions/' + n}
    defs = {'A': ms['a'], 'B': {'allOf': [ref('A'), ms['b']]}, 'C': {'allOf': [ms['c'], ref('A')]},
            'D': {'allOf': ordered(S, [ref('B'), ref('C')])}}
    a = app(doc({}, definitions=defs))
    t = a.resolve('#/definitions/D')
    try:
        r = a.prim_factory.produce(t, given)
    except ValidationError:
        S.check(S.not_(S.all(*ok)), 'an allowed object is rejected')
        return
    S.check(S.all(*ok), 'a forbidden object is accepted')
    S.check(S.same(dict(r), given), 'properties are changed, lost or invented')


@obligation('property', bounds='an allOf schema as property, item and additional property; integers and objects with limits of two members')
def asproperty(S):
    where = S.choice('where', ['prop', 'items', 'addp'])
    m1, m2 = S.int('max', -50, 50), S.int('min', -50, 50)
    v = S.int('v', -60, 60)
    if S.choice('object', [False, True]):
        c = {'allOf': [{'type': 'object', 'properties': {'q': {'type': 'integer', 'maximum': m1}}, 'required': ['q']},
                       {'type': 'object', 'properties': {'q': {'type': 'integer'}, 'r': {'type': 'integer', 'minimum': m2}}, 'required': ['r']}]}
        x = {'q': v, 'r': v}
    else:
        c = {'allOf': ordered(S, [{'type': 'integer', 'maximum': m1}, {'type': 'integer', 'minimum': m2}])}
        x = v
    d, given = {'prop': ({'type': 'object', 'properties': {'p': c}}, {'p': x}),
                'items': ({'type': 'object', 'properties': {'p': {'type': 'array', 'items': c}}}, {'p': [x]}),
                'addp': ({'type': 'object', 'additionalProperties': c}, {'p': x})}[where]
    ok = S.all(v <= m1, v >= m2)
    try:
        r = produce(d, given)
    except ValidationError:
        S.check(S.not_(ok), 'an allowed value is rejected')
        return
    S.check(ok, 'a forbidden value is accepted')
    S.check(S.same(dict(r), given), 'the value is changed')
