"""C01 numeric limits"""
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import produce

BIG = 2 ** 66


def limits(S, d, mk, has_max, has_min):
    """adds symbolic limits to definition d; returns the predicate 'v is allowed'"""
    mx = mn = None
    exmax = exmin = False
    if has_max:
        mx = d['maximum'] = mk('max')
        exmax = S.choice('exmax', [None, True, False])
        if exmax is not None:
            d['exclusiveMaximum'] = exmax
    if has_min:
        mn = d['minimum'] = mk('min')
        exmin = S.choice('exmin', [None, True, False])
        if exmin is not None:
            d['exclusiveMinimum'] = exmin

    def ok(v):
        a = b = True
        if has_max:
            a = v < mx if exmax else v <= mx
        if has_min:
            b = v > mn if exmin else v >= mn
        return S.all(a, b)
    return ok


def decide(S, d, given, v, ok, kind, typ):
    try:
        r = produce(d, given, kind=kind)
    except ValidationError:
        S.check(S.not_(ok(v)), 'an allowed value is rejected')
        S.observe('r', 'rejected')
        return
    S.check(ok(v), 'a forbidden value is accepted')
    S.check(S.same(r, typ(v)), 'the value is changed')
    S.observe('r', r)


@obligation('integer', bounds='values and limits in [-2^66, 2^66]; maximum/minimum each absent or any, exclusive flags absent/true/false; schema and parameter definitions; value given as int or decimal text',
            cases=[dict(fmt=f, kind=k, text=t, lim=l) for f, k, t in [(None, 'schema', 0), ('int32', 'param', 0), ('int64', 'schema', 1)]
                   for l in range(4)])
def integer(S, fmt, kind, text, lim):
    v = S.int('v', -BIG, BIG) if not text else S.int('v', -99999, 99999)
    d = {'type': 'integer'}
    if fmt:
        d['format'] = fmt
    ok = limits(S, d, lambda n: S.int(n, -BIG, BIG), lim & 1, lim & 2)
    decide(S, d, str(v) if text else v, v, ok, kind, int)


@obligation('number-int-format', bounds='type number with format int32/int64: as integer')
def number_int(S):
    v = S.int('v', -BIG, BIG)
    d = {'type': 'number', 'format': S.choice('fmt', ['int32', 'int64'])}
    ok = limits(S, d, lambda n: S.int(n, -BIG, BIG), 1, 1)
    decide(S, d, v, v, ok, 'schema', int)


@obligation('number', bounds='floats on the grid 1/4 in [-1000, 1000] against float or integer limits; formats absent/float/double; also given as integers up to 2^53',
            cases=[dict(fmt=f, kind=k, lim=l, given=g, limt=t) for f, k, g, t in
                   [(None, 'schema', 'float', 'float'), ('double', 'param', 'float', 'int'), ('float', 'schema', 'int', 'float'), (None, 'param', 'int', 'int')]
                   for l in range(4)])
def number(S, fmt, kind, lim, given, limt):
    v = S.float('v', 2, -1000, 1000) if given == 'float' else S.int('v', -2 ** 53, 2 ** 53)
    d = {'type': 'number'}
    if fmt:
        d['format'] = fmt
    mk = (lambda n: S.float(n, 2, -1000, 1000)) if limt == 'float' else (lambda n: S.int(n, -2 ** 53, 2 ** 53))
    ok = limits(S, d, mk, lim & 1, lim & 2)
    decide(S, d, v, v, ok, kind, float)


@obligation('multiple', bounds='multipleOf in {1,2,3,7,10,1000} for integers in [-2^40, 2^40], with a maximum; {0.25,0.5,1,1.5,2,3} for floats on the grid 1/8',
            cases=[dict(t=t, i=i) for t in ('integer', 'number') for i in range(6)])
def multiple(S, t, i):
    if t == 'integer':
        v = S.int('v', -2 ** 40, 2 ** 40)
        m = [1, 2, 3, 7, 10, 1000][i]
        d = {'type': 'integer', 'multipleOf': m}
        mult = v % m == 0
        typ = int
        mk = lambda n: S.int(n, -2 ** 40, 2 ** 40)
    else:
        v = S.float('v', 3, -100, 100)
        m = [0.25, 0.5, 1, 1.5, 2, 3][i]
        d = {'type': 'number', 'multipleOf': m}
        # v is a multiple of 1/8: compare in units of 1/8
        mult = int(v * 8) % int(m * 8) == 0
        typ = float
        mk = lambda n: S.float(n, 3, -100, 100)
    lim = limits(S, d, mk, S.choice('hasmax', [True, False]), False)
    decide(S, d, v, v, lambda x: S.all(mult, lim(x)), S.choice('kind', ['schema', 'param']), typ)


@obligation('multiple-large', bounds='integers in [-2^66, 2^66] with multipleOf in {2, 3, 1000, 2^33+1}; integers in [-2^40, 2^40] with multipleOf in {0.75, 1.5, 2.5}; as item, property or parameter',
            cases=[dict(i=i) for i in range(7)])
def multiple_large(S, i):
    m = [2, 3, 1000, 2 ** 33 + 1, 0.75, 1.5, 2.5][i]
    v = S.int('v', -BIG, BIG) if i < 4 else S.int('v', -2 ** 40, 2 ** 40)
    ok = v % m == 0 if i < 4 else (v * 4) % int(m * 4) == 0
    decide(S, {'type': 'integer', 'multipleOf': m}, v, v, lambda x: ok, S.choice('kind', ['schema', 'param']), int)


@obligation('no-limits', bounds='integers up to 2^66 and floats: unchanged when no limit is declared')
def nolimits(S):
    v = S.int('v', -BIG, BIG)
    decide(S, {'type': 'integer'}, v, v, lambda x: True, 'schema', int)
    f = S.float('f', 4, -10000, 10000)
    decide(S, {'type': 'number'}, f, f, lambda x: True, 'schema', float)


@obligation('nested', bounds='limits of array items and of object properties, two values each in [-2^66, 2^66]')
def nested(S):
    where = S.choice('where', ['items', 'prop', 'addp', 'ref-param-items'])
    d = {'type': 'integer'}
    ok = limits(S, d, lambda n: S.int(n, -BIG, BIG), 1, 1)
    a, b = S.int('a', -BIG, BIG), S.int('b', -BIG, BIG)
    if where == 'items':
        outer, given, kind = {'type': 'array', 'items': d}, [a, b], 'schema'
    elif where == 'prop':
        outer, given, kind = {'type': 'object', 'properties': {'a': d, 'b': d}}, {'a': a, 'b': b}, 'schema'
    elif where == 'addp':
        outer, given, kind = {'type': 'object', 'additionalProperties': d}, {'a': a, 'b': b}, 'schema'
    else:
        outer, given, kind = {'type': 'array', 'items': d}, [a, b], 'param'
    try:
        r = produce(outer, given, kind=kind)
    except ValidationError:
        S.check(S.not_(S.all(ok(a), ok(b))), 'allowed values are rejected')
        return
    S.check(S.all(ok(a), ok(b)), 'a forbidden value is accepted')
    vals = list(r) if isinstance(r, list) else [r['a'], r['b']]
    S.check(S.same(vals, [a, b]), 'values are changed')
