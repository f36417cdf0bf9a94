"""C02 string length and enum"""
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import produce


def decide(S, d, given, text, ok, kind):
    try:
        r = produce(d, given, kind=kind)
    except ValidationError:
        S.check(S.not_(ok), 'an allowed text is rejected')
        S.observe('r', 'rejected')
        return
    S.check(ok, 'a forbidden text is accepted')
    S.check(S.same(r, text), 'the text is changed')
    S.observe('r', r)


def lengths(S, d, n, has_max, has_min):
    a = b = True
    if has_max:
        m = d['maxLength'] = S.int('maxLength', 0, 6)
        a = n <= m
    if has_min:
        m = d['minLength'] = S.int('minLength', 0, 6)
        b = n >= m
    return S.all(a, b)


@obligation('length', bounds='any Unicode text up to 4 characters; maxLength/minLength each absent or 0..6; formats absent/password/unknown; schema and parameter',
            cases=[dict(fmt=f, kind=k, lim=l) for f, k in [(None, 'schema'), ('password', 'param'), ('x-own', 'schema')] for l in range(4)],
            thorough=[dict(fmt=f, kind=k, lim=l) for f in (None, 'password', 'x-own') for k in ('schema', 'param') for l in range(4)])
def length(S, fmt, kind, lim):
    s = S.str('s', 4)
    d = {'type': 'string'}
    if fmt:
        d['format'] = fmt
    ok = lengths(S, d, len(s), lim & 1, lim & 2)
    decide(S, d, s, s, ok, kind)


@obligation('enum', bounds='text and one to three enum members of any Unicode up to 2 characters, with or without maxLength 0..3',
            cases=[dict(n=n, kind=k, lim=l) for n in (1, 2) for k in ('schema', 'param') for l in (0, 1)] + [dict(n=3, kind='schema', lim=0)])
def enum(S, n, kind, lim):
    s = S.str('s', 2)
    es = [S.str('e%d' % i, 2 if n < 3 else 1) for i in range(n)]
    d = {'type': 'string', 'enum': es}
    ok = S.any(*[s == e for e in es])
    if lim:
        m = d['maxLength'] = S.int('maxLength', 0, 3)
        ok = S.all(ok, len(s) <= m)
    decide(S, d, s, s, ok, kind)


@obligation('non-text', bounds='integers in [-9999, 9999] given for a string definition are taken by their decimal text, with length limits or an enum of two texts of up to 2 characters')
def nontext(S):
    v = S.int('v', -9999, 9999)
    d = {'type': 'string'}
    t = str(v)
    if S.choice('limit', ['length', 'enum']) == 'length':
        ok = lengths(S, d, len(t), 1, 1)
    else:
        d['enum'] = [S.str('e0', 2, 0), S.str('e1', 2, 0, '0123456789-')]
        ok = S.any(*[t == e for e in d['enum']])
    decide(S, d, v, t, ok, S.choice('kind', ['schema', 'param']))


@obligation('email', bounds='texts a@b.c with up to 2 more letters: length limits hold for format email too')
def email(S):
    s = S.str('u', 3, 1, 'abcdefgh') + '@b.cc'
    d = {'type': 'string', 'format': 'email'}
    a = b = True
    m = d['maxLength'] = S.int('maxLength', 0, 10)
    n = d['minLength'] = S.int('minLength', 0, 10)
    decide(S, d, s, s, S.all(len(s) <= m, len(s) >= n), 'schema')


@obligation('nested', bounds='string items and properties, two texts of up to 2 characters, both limits, an enum')
def nested(S):
    where = S.choice('where', ['items', 'prop', 'addp', 'param'])
    a, b = S.str('a', 2), S.str('b', 2)
    d = {'type': 'string'}
    m = d['maxLength'] = S.int('maxLength', 0, 3)
    n = d['minLength'] = S.int('minLength', 0, 3)
    ok = S.all(len(a) <= m, len(a) >= n, len(b) <= m, len(b) >= n)
    if where == 'items' or where == 'param':
        outer, given = {'type': 'array', 'items': d}, [a, b]
    elif where == 'prop':
        outer, given = {'type': 'object', 'properties': {'a': d, 'b': d}}, {'a': a, 'b': b}
    else:
        outer, given = {'type': 'object', 'additionalProperties': d}, {'a': a, 'b': b}
    try:
        r = produce(outer, given, kind='param' if where == 'param' else 'schema')
    except ValidationError:
        S.check(S.not_(ok), 'allowed texts are rejected')
        return
    S.check(ok, 'a forbidden text is accepted')
    vals = list(r) if isinstance(r, list) else [r['a'], r['b']]
    S.check(S.same(vals, [a, b]), 'texts are changed')
