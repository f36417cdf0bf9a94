"""C26 loading and dumping a document"""
from symx.api import obligation
from harness.util import load, app, doc, URL
from harness.fields import SPEC, DEFAULT, MINI, KINDS, place, raw, leaf

def plain(S, a, b):
    """equal values of the same JSON types"""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return False
        return S.all(*[plain(S, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) and isinstance(b, list):
        if len(a) != len(b):
            return False
        return S.all(*[plain(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return a is None and b is None
    return S.same(a, b)


def hollow(S, kind, a):
    """nothing of this object or value is dumped, see the findings empty-object and empty-value"""
    if kind in SPEC and isinstance(a, dict):
        return S.all(*[S.same(a[k], DEFAULT[k]) if k in DEFAULT and not isinstance(a[k], (dict, list)) else hollow(S, f, a[k]) for k, f in SPEC[kind].items() if k in a])
    return a is None or isinstance(a, (dict, list)) and len(a) == 0


def nested_empty(v, depth=0):
    """an empty list or object within a value"""
    if isinstance(v, (list, dict)):
        if not v and depth:
            return True
        return any([nested_empty(x, depth + 1) for x in (v.values() if isinstance(v, dict) else v)])
    return False


def nested_null(v, depth=0):
    """a null within a list or object"""
    if isinstance(v, (list, dict)):
        return any([nested_null(x, depth + 1) for x in (v.values() if isinstance(v, dict) else v)])
    return v is None and depth > 0


def raw_null(kind, a):
    """a null within a value of a description"""
    if kind[0] in '[{':
        return any([raw_null(kind[1:], x) for x in (a if kind[0] == '[' else a.values())])
    if kind in SPEC and isinstance(a, dict):
        return any([raw_null(f, a[k]) for k, f in SPEC[kind].items() if k in a])
    return nested_null(a)


def equiv(S, kind, a, b, where):
    """b is what was dumped for a"""
    if kind[0] in '[{':
        if kind[0] == '{':
            keys = sorted(a)
            S.check(isinstance(b, dict) and sorted(b) == keys, 'other entries in ' + where)
        else:
            keys = range(len(a))
            S.check(isinstance(b, list) and len(b) == len(a), 'another number of entries in ' + where)
        for k in keys:
            equiv(S, kind[1:], a[k], b[k], '%s/%s' % (where, k))
    elif kind in SPEC and isinstance(a, dict):
        S.check(isinstance(b, dict), 'no object in ' + where, known=('empty-object', S.all(b is None, hollow(S, kind, a))))
        for k in b:
            S.check(k in a and k in SPEC[kind], '%s is invented in %s' % (k, where))
        for k, f in SPEC[kind].items():
            if k not in a:
                continue
            if k in b:
                equiv(S, f, a[k], b[k], where + '/' + k)
            elif f[0] in '[{':
                S.check(len(a[k]) == 0, '%s is lost in %s' % (k, where))
            elif k in DEFAULT and not isinstance(a[k], (dict, list)):
                S.check(S.same(a[k], DEFAULT[k]), '%s is lost in %s' % (k, where))
            elif f in SPEC:
                S.check(False, '%s is lost in %s' % (k, where), known=('empty-object', hollow(S, f, a[k])))
            elif a[k] is None:
                S.check(False, '%s is lost in %s' % (k, where), known=('null-field', True))
            else:
                S.check(False, '%s is lost in %s' % (k, where), known=('empty-value', a[k] == [] or a[k] == {}))
    else:
        S.check(plain(S, a, b), 'another value in ' + where, known=('empty-value', nested_empty(a)))


def dump(S, o, d):
    """the dump of what was loaded from d"""
    e, out = S.fn_raises(ValueError, o.dump)
    S.check(not e, 'a loaded description cannot be dumped', known=('null-value', raw_null('Swagger', d)))
    return out


def roundtrip(S, d):
    out = dump(S, load(d).raw, d)
    equiv(S, 'Swagger', d, out, '#')
    again = load(out).raw.dump()
    S.check(plain(S, out, again), 'loading and dumping again gives another description')
    return out


@obligation('field', bounds='each field of each object of the specification alone: texts of up to one Unicode character, booleans, integers -2..3, floats in halves -2..2, null, lists, empty objects and containers',
            cases=[dict(kind=k) for k in KINDS])
def field(S, kind):
    f = S.choice('field', sorted(SPEC[kind]))
    d = dict((k, v) for k, v in MINI.get(kind, {}).items() if k != f)
    if kind == 'Swagger' and f in ('swagger', 'info', 'paths'):
        return
    if f == '$ref':
        d[f] = S.choice('ref', ['#/x/a', 'o.json#/x', 'o.json'])
    else:
        d[f] = leaf(S, SPEC[kind][f], 'x')
    roundtrip(S, place(kind, d))


@obligation('together', bounds='all fields of each object at once, with text, boolean, integer and null values as before',
            cases=[dict(kind=k) for k in KINDS])
def together(S, kind):
    d = {}
    for f, k in SPEC[kind].items():
        if f == '$ref' or kind == 'Swagger' and f in ('swagger', 'info', 'paths'):
            continue
        if k == 't':
            d[f] = S.str(f, 1, 1)
        elif k == 'b':
            d[f] = S.bool(f)
        elif k in 'in':
            d[f] = S.int(f, -1, 1)
        elif k == 'v':
            d[f] = S.int(f, -1, 1)
        elif k == 'lt':
            d[f] = [S.str(f, 1, 1)]
        elif k == 'lv':
            d[f] = [S.str(f, 1), 0]
        elif k == 'r':
            d[f] = {'a': S.str(f, 1)}
        elif k == 'lr':
            d[f] = [{'k': ['a']}]
        else:
            m = dict(MINI[k.strip('[{')])
            d[f] = [m] if k[0] == '[' else {'a': m} if k[0] == '{' else m
    roundtrip(S, place(kind, d))


@obligation('values', bounds='default, example, enum and examples holding texts of up to 2 Unicode characters, integers, booleans or null, plain or inside of lists and objects up to four levels deep, empty lists and objects',
            cases=[dict(kind=k, f=f) for k, f in (('Schema', 'default'), ('Schema', 'example'), ('Schema', 'enum'), ('Response', 'examples'), ('Parameter', 'default'), ('Header', 'enum'), ('Items', 'default'))])
def values(S, kind, f):
    d = dict(MINI.get(kind, {}))
    v = raw(S, 'v', 5)
    if S.choice('bare-empty', [False, True]):
        v = S.choice('empty', [[], {}])
    if f == 'examples':
        v = {'application/json': v}
    elif f == 'enum':
        v = [v, 'x']
    d[f] = v
    roundtrip(S, place(kind, d))


@obligation('settings', bounds='consumes, produces, schemes, security, tags and required given as empty lists, for the document and for an operation; the effective settings of the operation after loading the dump of the prepared description')
def settings(S):
    top, op = {}, {'operationId': 'o', 'responses': {'200': {'description': ''}}}
    names = ['consumes', 'produces', 'schemes', 'security']
    n = S.choice('name', names)
    full = {'consumes': ['text/plain'], 'produces': ['text/plain'], 'schemes': ['https'], 'security': [{'s': ['a']}]}
    for where, o in (('top', top), ('op', op)):
        m = S.choice(where, ['absent', 'empty', 'full'])
        if m != 'absent':
            o[n] = full[n] if m == 'full' else []
    if n == 'security':
        top['securityDefinitions'] = {'s': {'type': 'basic'}}
    d = doc({'/p': {'get': op, 'parameters': [{'name': 'q', 'in': 'query', 'type': 'string'}]}}, **top)
    roundtrip(S, d)
    a = app(d)
    out = dump(S, a, d)
    b = app(out)
    S.check(plain(S, out, b.dump()), 'dumping the prepared description again gives another one')
    x, y = a.op['o'], b.op['o']
    S.check(x.consumes == y.consumes, 'the effective consumes change')
    S.check(x.produces == y.produces, 'the effective produces change')
    S.check(sorted(x.cached_schemes) == sorted(y.cached_schemes), 'the effective schemes change')
    S.check((x.security or []) == (y.security or []), 'the effective security changes')
    S.check([p.name for p in x.parameters] == [p.name for p in y.parameters], 'the effective parameters change')


@obligation('prepared', bounds='a prepared description with references between definitions, parameters, responses and path items, also into another document; symbolic limits, defaults and texts',
            cases=[dict(far=f) for f in (False, True)])
def prepared(S, far):
    m, t = S.int('m', -2, 2), S.str('t', 2)
    base = 'http://h.x/api/o.json' if far else ''
    pre = base or URL
    sect = {'definitions': {'A': {'type': 'object', 'properties': {'n': {'type': 'integer', 'maximum': m, 'default': 0}, 'b': {'$ref': '#/definitions/B'}}},
                            'B': {'type': 'string', 'enum': [t, '', 'x']}},
            'parameters': {'P': {'name': 'p', 'in': 'query', 'type': 'integer', 'minimum': m, 'default': m}},
            'responses': {'R': {'description': t, 'schema': {'$ref': '#/definitions/A'}}}}
    d = doc({'/p': {'parameters': [{'$ref': base + '#/parameters/P'}], 'get': {'operationId': 'o', 'description': t, 'deprecated': S.bool('deprecated'), 'responses': {'200': {'$ref': base + '#/responses/R'}}}}})
    o = {}
    (o if far else d).update(sect)
    docs = {URL: d, 'http://h.x/api/o.json': o} if far else d
    a = app(docs)
    out = a.dump()
    op = out['paths']['/p']['get']
    S.check(op['parameters'] == [{'$ref': pre + '#/parameters/P'}], 'the parameter is not dumped as a reference')
    S.check(op['responses'] == {'200': {'$ref': pre + '#/responses/R'}}, 'the response is not dumped as a reference')
    S.check(S.all(plain(S, op['operationId'], 'o'), plain(S, op['description'], t)), 'a field of the operation is changed')
    if not far:
        want = dict(sect['definitions'])
        want['A'] = {'type': 'object', 'properties': {'n': sect['definitions']['A']['properties']['n'], 'b': {'$ref': URL + '#/definitions/B'}}}
        S.check(plain(S, want, out['definitions']), 'the definitions are changed')
        S.check(plain(S, sect['parameters'], out['parameters']), 'the parameters are changed')
    docs = dict(docs)
    if far:
        docs[URL] = out
    else:
        docs = out
    again = app(docs).dump()
    S.check(plain(S, out, again), 'loading and dumping again gives another description')
