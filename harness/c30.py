"""C30 comparing descriptions tells equal from different"""
from symx.api import obligation
from pyswagger.spec.base import BaseObj
from pyswagger.utils import jp_split
from harness.util import load, app, doc, op_doc
from harness.fields import SPEC, MINI, KINDS, place, leaf, equal, names

def lengths(a, b):
    """lists of different lengths at the same place"""
    if isinstance(a, BaseObj) and type(a) is type(b):
        return any(lengths(getattr(a, n), getattr(b, n)) for n in names(a))
    if isinstance(a, dict) and isinstance(b, dict):
        return any(lengths(a[k], b[k]) for k in a if k in b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(lengths(x, y) for x, y in zip(a, b))
    return False


NOTHING = []


def at(o, ts):
    """what is found under a pointer"""
    for t in ts:
        if isinstance(o, BaseObj):
            if t not in names(o):
                return NOTHING
            o = getattr(o, t)
        elif isinstance(o, dict):
            found = [k for k in o if str(k) == t]
            if not found:
                return NOTHING
            o = o[found[0]]
        elif isinstance(o, list):
            found = [i for i in range(len(o)) if str(i) == t]
            if not found:
                return NOTHING
            o = o[found[0]]
        else:
            return NOTHING
    return o


def verdict(S, a, b):
    e, r = S.fn_raises(Exception, a.compare, b)
    S.check(not e, 'comparing raises', known=('list-length', lengths(a, b)))
    S.check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], bool), 'no verdict')
    return r


def compare(S, a, b):
    known = lengths(a, b)
    same, where = verdict(S, a, b)
    back, _ = verdict(S, b, a)
    want = equal(S, a, b)
    S.observe('same', same)
    S.check(S.iff(same, want), 'different descriptions are said to be the same, or the other way round', known=('list-length', known))
    S.check(back == same, 'the verdict depends on the order', known=('list-length', known))
    if same:
        S.reach('same')
        S.check(where == '', 'a difference is named for equal descriptions')
    else:
        S.reach('different')
        ts = jp_split(where)
        x, y = at(a, ts), at(b, ts)
        S.check(S.any((x is NOTHING) != (y is NOTHING), S.all(x is not NOTHING, y is not NOTHING, S.not_(equal(S, x, y)))), 'the descriptions do not differ at the place named')


def itself(S, a):
    same, where = verdict(S, a, a)
    S.check(same and where == '', 'a description differs from itself')


@obligation('field', bounds='two descriptions differing in one field of one object (each field of each object of the specification; absent or with values as in C26)',
            cases=[dict(kind=k, f=f) for k in KINDS if k not in ('Schema', 'Swagger') for f in sorted(SPEC[k]) if f != '$ref'] + [dict(kind='Schema', f=f) for f in sorted(SPEC['Schema']) if f != '$ref'])
def field(S, kind, f):
    docs = []
    for tag in 'ab':
        d = dict((k, v) for k, v in MINI.get(kind, {}).items() if k != f)
        if S.choice(tag + '-given', [False, True]):
            d[f] = leaf(S, SPEC[kind][f], tag)
        docs.append(place(kind, d))
    a, b = load(docs[0]).raw, load(docs[1]).raw
    compare(S, a, b)
    itself(S, a)


def value(S, tag, shapes):
    """a JSON value with symbolic leaves"""
    shape = S.choice(tag + '-shape', shapes)
    if shape == 'key':
        return {S.str(tag + 'k', 1, 1, 'ab/~'): S.int(tag, 0, 1), 'c': [1]}
    if shape == 'list':
        return [S.int(tag + str(i), 0, 1) for i in range(2)]
    if shape == 'nested':
        return {'a': [{'b/': [S.str(tag, 2, 0, 'a~'), 0]}, S.bool(tag + 'b')]}
    if shape == 'leaf':
        return {'int': lambda: S.int(tag, 0, 1), 'bool': lambda: S.bool(tag), 'text': lambda: S.str(tag, 1, 0, '01'),
                'float': lambda: S.float(tag, 1, 0, 1), 'null': lambda: None}[S.choice(tag + '-leaf', ['int', 'bool', 'text', 'float', 'null'])]()
    return {'empty-list': [], 'empty-map': {}}[shape]


@obligation('values', bounds='two defaults, examples or lists of enumerated values: integers, booleans, texts, floats, null, lists of two, mappings with a symbolic key of one of "ab/~", three levels deep, empty ones',
            cases=[dict(f=f) for f in ('default', 'example', 'enum')])
def values(S, f):
    shapes = ['leaf', 'key', 'list', 'nested', 'empty-list', 'empty-map']
    docs = []
    for tag in 'ab':
        v = value(S, tag, shapes)
        docs.append(place('Schema', {f: [v, 'x'] if f == 'enum' else v}))
    a, b = load(docs[0]).raw, load(docs[1]).raw
    compare(S, a, b)
    itself(S, b)


@obligation('names', bounds='two descriptions whose definitions, properties, paths, responses, headers or examples have a key of up to 2 characters of "ab/~" or an empty one',
            cases=[dict(where=w, n=n) for w in ('definitions', 'properties', 'paths', 'responses', 'headers', 'examples', 'scopes') for n in (0, 1, 2)])
def names_(S, where, n):
    docs = []
    for tag in 'ab':
        k = S.str(tag, n, n, 'ab/~')
        x = S.int(tag + 'x', 0, 1)
        if where == 'definitions':
            d = doc({}, definitions={k: {'maximum': x}})
        elif where == 'properties':
            d = doc({}, definitions={'X': {'properties': {k: {'maximum': x}}}})
        elif where == 'paths':
            d = doc({k: {'get': {'deprecated': x == 1, 'responses': {}}}})
        elif where == 'responses':
            d = doc({'/p': {'get': {'responses': {k: {'description': str(x)}}}}})
        elif where == 'headers':
            d = doc({}, responses={'R': {'description': '', 'headers': {k: {'type': 'integer', 'maximum': x}}}})
        elif where == 'examples':
            d = doc({}, responses={'R': {'description': '', 'examples': {k: x}}})
        else:
            d = doc({}, securityDefinitions={'s': {'type': 'oauth2', 'scopes': {k: 'a' if x else ''}}})
        docs.append(d)
    a, b = load(docs[0]).raw, load(docs[1]).raw
    compare(S, a, b)


def document(S, tag, i):
    """a description where only the i-th of its symbolic places may vary"""
    def v(j, given):
        return S.int(tag, 0, 2) if i == j else given
    return doc({
        '/a': {'parameters': [{'name': 'p', 'in': 'query', 'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer', 'maximum': v(0, 1)}}}],
               'get': {'operationId': 'o', 'responses': {'200': {'description': '', 'schema': {'allOf': [{'type': 'object'}, {'properties': {'x': {'minimum': v(1, 1)}}}]}},
                                                         'default': {'description': '', 'headers': {'X': {'type': 'integer', 'default': v(2, 1)}}}}},
               'post': {'consumes': ['text/plain', str(v(3, 1))], 'responses': {}, 'parameters': [{'name': 'b', 'in': 'body', 'schema': {'items': {'additionalProperties': {'maxLength': v(4, 1)}}}}]}},
        '/b': {'delete': {'security': [{'s': [str(v(5, 1))]}], 'responses': {}}}},
        definitions={'D': {'required': ['a', str(v(6, 1))], 'xml': {'wrapped': v(7, 1) == 1}}},
        tags=[{'name': 'a'}, {'name': 'b', 'externalDocs': {'url': str(v(8, 1))}}])


@obligation('places', bounds='descriptions with all kinds of objects, nested up to eight levels, differing in a number, text or boolean at one of nine places',
            cases=[dict(i=i, prepared=p) for i in range(9) for p in (False, True)])
def places(S, i, prepared):
    make = app if prepared else load
    a, b = make(document(S, 'a', i)), make(document(S, 'b', i))
    compare(S, a.root if prepared else a.raw, b.root if prepared else b.raw)


@obligation('kinds', bounds='objects of different kinds, and of the same kind at different places', cases=[dict()])
def kinds(S):
    d = doc({'/p': {'get': {'responses': {}, 'parameters': [{'name': 'a', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}},
                                                            {'name': 'b', 'in': 'query', 'type': 'array', 'items': {'type': 'string'}}]}}},
            definitions={'A': {'type': 'string'}, 'B': {'items': {'type': 'string'}}})
    r = load(d).raw
    ps = r.paths['/p'].get.parameters
    objs = [r, r.info, r.paths['/p'], r.paths['/p'].get, ps[0], ps[1], ps[0].items, ps[1].items, r.definitions['A'], r.definitions['B'], r.definitions['B'].items]
    n = S.int('a', 0, len(objs) - 1)
    a = objs[[i for i in range(len(objs)) if n == i][0]]
    n = S.int('b', 0, len(objs) - 1)
    b = objs[[i for i in range(len(objs)) if n == i][0]]
    if type(a) is type(b):
        compare(S, a, b)
    else:
        S.check(a.compare(b)[0] is False, 'objects of different kinds are said to be the same')
        S.reach('different')
