"""C21 each document is loaded once and references reach their target"""
from symx.api import obligation
from pyswagger import App
from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0.parser import SchemaContext, ParameterContext, ResponseContext, PathItemContext
from harness.util import app, doc, load, getter, URL

U1, U2 = 'http://h.x/api/other.json', 'http://o.x/single'


def once(S, log):
    for u in set(log):
        S.check(log.count(u) == 1, 'a document is fetched again')


def family(S):
    """three documents: a description, another one, and a single schema with definitions of its own"""
    ks = [S.str('k%d' % i, n, 1, 'ab/') for i, n in enumerate((1, 2))]
    S.assume(ks[0] != ks[1])
    ms = [S.int('m%d' % i, 0, 99) for i in range(9)]

    def defs(i):
        d = {}
        d[ks[0]] = {'type': 'object', 'maximum': ms[i], 'properties': {'x': {'type': 'integer', 'maximum': ms[i + 1]}}}
        d[ks[1]] = {'type': 'object', 'maximum': ms[i + 2], 'properties': {'x': {'type': 'integer', 'maximum': 200}}}
        return d
    single = {'type': 'object', 'maximum': ms[6], 'properties': {'x': {'type': 'integer', 'maximum': ms[7]}}, 'definitions': {'B': {'type': 'integer', 'maximum': ms[8]}}}
    docs = {URL: doc({}, definitions=defs(0)), U1: doc({}, definitions=defs(3)), U2: single}
    e = [k.replace('~', '~0').replace('/', '~1') for k in ks]
    refs = []
    for i, u in ((0, URL), (3, U1)):
        refs += [(u + '#/definitions/' + e[0], ms[i]), (u + '#/definitions/' + e[0] + '/properties/x', ms[i + 1]), (u + '#/definitions/' + e[1], ms[i + 2])]
    refs += [(U2, ms[6]), (U2 + '#', ms[6]), (U2 + '#/properties/x', ms[7]), (U2 + '#/definitions/B', ms[8])]
    refs += [('#/definitions/' + e[0], ms[0]), (U1, None)]
    return docs, refs


@obligation('orders', bounds='three documents (two descriptions, one single schema with definitions of its own), any two references out of twelve and the first one again, in any order, names of up to 2 characters of "ab/"',
            cases=[dict(first=i, n=2) for i in range(12)], thorough=[dict(first=i, n=3) for i in range(12)], budget=120)
def orders(S, first, n):
    docs, refs = family(S)
    log = []
    a = app(docs, log=log, strict=False)
    todo = [refs[first]] + [S.choice('r%d' % i, refs) for i in range(1, n)]
    for ref, want in todo + [refs[first]]:
        if want is None:
            o = a.resolve(ref)
            S.check(o.info.title == 't', 'a whole document is another object')
        else:
            o = a.resolve(ref, SchemaContext)
            S.check(S.same(o.maximum, want), 'a reference leads to another object')
    once(S, log)


@obligation('graph', bounds='three documents of two definitions each (one of them used within a property), every reference to any of the six definitions or none; circular ones included',
            cases=[dict(shape=s) for s in ('ref', 'property', 'mixed')], budget=120)
def graph(S, shape):
    urls = [URL, U1, U2]
    names = ['A', 'A/b']
    keys = [(u, n) for u in urls for n in names]
    edge = {}
    # one free edge from each document, and a chain back to the first one
    for i, u in enumerate(urls):
        edge[(u, 'A')] = S.choice('e%d' % i, [None] + [k for k in keys if not (k[0] == u and k[1] == 'A')])
        edge[(u, 'A/b')] = (urls[(i + 1) % 3], 'A') if shape != 'property' else None
    docs = {}
    for u in urls:
        d = {}
        for n in names:
            t = edge[(u, n)]
            s = {'title': u + n}
            if t is not None:
                r = {'$ref': t[0] + '#/definitions/' + t[1].replace('/', '~1')}
                if shape == 'ref' or (shape == 'mixed' and n == 'A'):
                    s.update(r)
                else:
                    s['properties'] = {'p': r}
            d[n] = s
        docs[u] = doc({}, definitions=d) if u == URL else {'definitions': d}
    log = []
    a = app(docs, log=log, strict=False)
    once(S, log)
    todo, seen = [(URL, 'A'), (URL, 'A/b')], []
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.append(k)
        o = a.resolve(k[0] + '#/definitions/' + k[1].replace('/', '~1'), SchemaContext)
        S.check(o.title == k[0] + k[1], 'a reference leads to another object')
        t = edge[k]
        if t is not None:
            if shape == 'ref' or (shape == 'mixed' and k[1] == 'A'):
                S.check(o.ref_obj.title == t[0] + t[1], 'a reference leads to another object')
            else:
                S.check(o.properties['p'].ref_obj.title == t[0] + t[1], 'a reference leads to another object')
            todo.append(t)
        else:
            S.check(o.ref_obj is None, 'a reference is invented')
    S.check(S.all(*[u in log for u in {k[0] for k in seen}]), 'a needed document is not fetched')
    once(S, log)


@obligation('urls', bounds='two further documents whose URLs differ in host, folder, file name, extension or query by one or two characters; two references into each, in any order',
            cases=[dict(part=p) for p in ('host', 'folder', 'file', 'ext', 'query', 'params', 'port', 'case')])
def urls(S, part):
    u, v = S.str('u', 2, 1, 'ab'), S.str('v', 2, 1, 'ab')
    if part == 'port':
        u, v = str(S.int('pu', 1, 99)), str(S.int('pv', 1, 99))
    elif part == 'case':
        u, v = S.str('cu', 2, 2, 'aA'), S.str('cv', 2, 2, 'aA')
    elif part == 'query':
        u, v = S.str('qu', 3, 0, 'a=&'), S.str('qv', 3, 1, 'a=&')
    S.assume(not u == v)
    form = {'host': 'http://%s.x/d.json', 'folder': 'http://o.x/%s/d.json', 'file': 'http://o.x/%s.json', 'ext': 'http://o.x/d.%s', 'query': 'http://o.x/d.json?%s',
            'params': 'http://o.x/d;%s', 'port': 'http://o.x:%s/d.json', 'case': 'http://o.x/%s.json'}[part]
    us = [form % u if u else 'http://o.x/d.json', form % v]
    ms = [S.int('m%d' % i, 0, 9) for i in range(4)]
    docs = {URL: doc({}, definitions={'A': {'$ref': us[0] + '#/definitions/X'}, 'B': {'$ref': us[1] + '#/definitions/X'}}),
            us[0]: {'definitions': {'X': {'maximum': ms[0]}, 'Y': {'maximum': ms[1]}}}, us[1]: {'definitions': {'X': {'maximum': ms[2]}, 'Y': {'maximum': ms[3]}}}}
    log = []
    a = app(docs, log=log, strict=False)
    S.check(S.same(a.root.definitions['A'].ref_obj.maximum, ms[0]), 'a reference leads to another object')
    S.check(S.same(a.root.definitions['B'].ref_obj.maximum, ms[2]), 'a reference leads to another object')
    first = S.choice('first', [0, 1])
    for i in (first, 1 - first):
        S.check(S.same(a.resolve(us[i] + '#/definitions/Y', SchemaContext).maximum, ms[2 * i + 1]), 'a reference leads to another object')
    once(S, log)
    S.check(len(log) == 3, 'another number of documents is fetched')


KINDS = ['schema', 'parameter', 'response', 'pathitem']


@obligation('deep', bounds='references to any two or three of seven objects in each other, at up to seven tokens below a document (a description, or a document that is none), any of it in any order; limits 0..99',
            cases=[dict(first=i, plain=p) for i in range(7) for p in (False, True)])
def deep(S, first, plain):
    ms = [S.int('m%d' % i, 0, 99) for i in range(7)]

    def s(i, **k):
        return dict({'type': 'object', 'maximum': ms[i]}, **k)
    A = s(0, properties={'x': s(1, items=s(2, properties={'y': s(3), 'x': s(4)}))}, allOf=[s(5, additionalProperties=s(6))])
    at = ['', '/properties/x', '/properties/x/items', '/properties/x/items/properties/y', '/properties/x/items/properties/x', '/allOf/0', '/allOf/0/additionalProperties']
    js = [first, S.choice('second', list(range(7)))]
    if S.choice('more', [False, True]):
        js.append((first + 3) % 7)
    docs = {URL: doc({}, definitions=dict(('R%d' % i, {'$ref': U1 + '#/definitions/A' + at[j]}) for i, j in enumerate(js))),
            U1: {'definitions': {'A': A}} if plain else doc({}, definitions={'A': A})}
    log = []
    a = app(docs, log=log, strict=False)
    for i, j in enumerate(js):
        S.check(S.same(a.root.definitions['R%d' % i].ref_obj.maximum, ms[j]), 'a reference leads to another object')
    for j in js[::-1] + [0, 2, 4, 6]:
        S.check(S.same(a.resolve(U1 + '#/definitions/A' + at[j], SchemaContext).maximum, ms[j]), 'a reference leads to another object')
    once(S, log)


@obligation('missing', bounds='a reference of each kind to a name of up to 2 characters of "abA" (also the empty one) that may or may not exist, in the same or another document, or to a document that does not exist',
            cases=[dict(kind=k) for k in KINDS])
def missing(S, kind):
    name = S.str('name', 2, 0, 'abA')
    where = S.choice('where', ['', URL, U1, 'http://none/x.json'])
    r = {'$ref': where + '#/' + {'schema': 'definitions', 'parameter': 'parameters', 'response': 'responses', 'pathitem': 'x'}[kind] + '/' + name}
    top, paths = {}, {}
    other = {'type': 'integer'}
    if kind == 'schema':
        top = {'definitions': {'a': {'type': 'integer'}, 'R': r}}
    elif kind == 'parameter':
        other = {'name': 'x', 'in': 'query', 'type': 'string'}
        top = {'parameters': {'a': other, 'R': r}}
    elif kind == 'response':
        other = {'description': 'x'}
        top = {'responses': {'a': other, 'R': r}}
    else:
        S.assume(where not in ('', URL))
        other = {'get': {'responses': {}}}
        paths = {'/p': r}
    docs = {URL: doc(paths, **top), U1: {'definitions': {'a': other}, 'parameters': {'a': other}, 'responses': {'a': other}, 'x': {'a': other}}}
    e, _ = S.fn_raises(Exception, lambda: app(docs, strict=False))
    S.check((e is None) == (name == 'a' and where != 'http://none/x.json'), 'a reference to nothing is accepted, or an existing one refused')


@obligation('shared', bounds='two Apps with one Resolver (same document, or two that share a third): each document is fetched once, and is not changed by the preparation of the first App')
def shared(S):
    same = S.choice('same', [True, False])
    m = S.int('m', 0, 99)
    op = {'operationId': 'o', 'parameters': [{'name': 'q', 'in': 'query', 'type': 'integer', 'maximum': m}], 'responses': {'200': {'description': ''}}}
    item = {'parameters': [{'name': 'h', 'in': 'header', 'type': 'string'}], 'get': op}
    d = doc({'/p': item, '/q': {'$ref': U1 + '#/x/i'}}, definitions={'A': {'$ref': U1 + '#/definitions/D'}}, consumes=['a/b'], security=[{'s': []}],
            securityDefinitions={'s': {'type': 'basic'}})
    docs = {URL: d, U2: doc({}, definitions={'A': {'$ref': U1 + '#/definitions/D'}}), U1: {'definitions': {'D': {'type': 'integer', 'maximum': m}}, 'x': {'i': {'get': dict(op, operationId='o2')}}}}
    log = []
    res = Resolver(default_getter=getter(docs, log))
    a = App.load(URL, resolver=res)
    a.prepare()
    ps = [(p.name, getattr(p, 'in')) for p in a.root.paths['/p'].get.parameters]
    b = App.load(URL if same else U2, resolver=res)
    b.prepare()
    once(S, log)
    S.check(S.same(a.root.definitions['A'].ref_obj.maximum, m) and S.same(b.root.definitions['A'].ref_obj.maximum, m), 'the second App sees another document')
    if same:
        S.check([(p.name, getattr(p, 'in')) for p in b.root.paths['/p'].get.parameters] == ps and len(ps) == 2, 'the document was changed by the first App')
    S.check(len(op['parameters']) == 1 and sorted(item) == ['get', 'parameters'] and sorted(op) == ['operationId', 'parameters', 'responses'], 'the document was changed')
    for x in (a, b):
        S.check(S.same(x.resolve(U1 + '#/definitions/D', SchemaContext).maximum, m), 'a reference leads to another object')
    once(S, log)


@obligation('empty-names', bounds='names of definitions and properties of up to 2 characters of "/~a", also empty ones, in the same or another document: a reference to one of two of them',
            cases=[dict(where=w) for w in ('', U1, U2)])
def empty_names(S, where):
    n = [S.str('n%d' % i, 2 - i, 0, '/~a') for i in range(2)]
    S.assume(n[0] != n[1])
    m = [S.int('m%d' % i, 0, 99) for i in range(2)]
    i = S.choice('target', [0, 1])
    deep = S.choice('deep', [False, True])
    ds = {}
    for k, v in zip(n, m):
        s = {'type': 'object', 'maximum': v}
        ds[k] = {'type': 'object', 'properties': {'': s, 'x': {'type': 'integer'}}} if deep else s
    ref = where + '#/definitions/' + n[i].replace('~', '~0').replace('/', '~1') + ('/properties/' if deep else '')
    defs = {'Ref': {'type': 'object', 'properties': {'p': {'$ref': ref}}}}
    if where == '':
        defs.update(ds)
    docs = {URL: doc({}, definitions=defs), U1: doc({}, definitions=ds), U2: {'definitions': ds}}
    a = app(docs, strict=False)
    S.check(S.same(a.root.definitions['Ref'].properties['p'].ref_obj.maximum, m[i]), 'a reference leads to another object')


@obligation('loaded-again', bounds='one resolver, two Apps of one document (or of a document referred to before) loaded with a getter given by class or object, or without one: each document is fetched once')
def loaded_again(S):
    m = S.int('m', 0, 99)
    docs = {URL: doc({}, definitions={'A': {'$ref': U1 + '#/definitions/D'}}), U1: doc({}, definitions={'D': {'type': 'integer', 'maximum': m}})}
    log = []
    g = getter(docs, log)
    res = Resolver(default_getter=g)
    first = S.choice('first', [None, g])
    a = App.load(URL, getter=first, resolver=res)
    if S.choice('prepare', [False, True]):
        a.prepare()
    second, v = S.choice('second', [(URL, 0), (U1, 1)])
    b = App.load(second, getter=S.choice('given', [None, g]), resolver=res)
    b.prepare()
    a.prepare()
    S.check(S.same(b.root.definitions['D'].maximum if v else b.root.definitions['A'].ref_obj.maximum, m), 'the second App sees another document')
    once(S, log)


@obligation('index', bounds='a reference into a list of 1..3 schemas (in the same document, another description, or a document that is a single schema, which was loaded as a whole before or not) by an index of up to 2 characters of "019-+_ a", with nothing behind it or the name of a member that is there or not',
            cases=[dict(where=w, before=b) for w in ('same', 'other', 'single') for b in (False, True) if w == 'single' or not b])
def index(S, where, before):
    n = S.choice('n', [1, 2, 3])
    t = S.str('t', 2, 1, '019-+_ a')
    tail = S.choice('tail', ['', '/properties/x', '/properties/y', '/type', '/allOf'])
    ms = [S.int('m%d' % i, 0, 99) for i in range(n)]
    base = {'type': 'object', 'allOf': [{'type': 'object', 'maximum': m, 'properties': {'x': {'type': 'integer', 'maximum': m}}} for m in ms]}
    ref = {'same': '#/definitions/A', 'other': U1 + '#/definitions/A', 'single': U2 + '#'}[where] + '/allOf/' + t + tail
    defs = {'R': {'$ref': ref}}
    if before:
        defs['W'] = {'$ref': U2}
    if where == 'same':
        defs['A'] = base
    docs = {URL: doc({}, definitions=defs), U1: doc({}, definitions={'A': base}), U2: base}
    e, a = S.fn_raises(Exception, lambda: app(docs, strict=False))
    there = S.any(*[S.same(t, str(i)) for i in range(n)])
    exists = S.all(there, tail in ('', '/properties/x'))
    odd = S.not_(S.any(*[S.same(t, str(i)) for i in range(100)]))
    S.check(S.implies(exists, e is None), 'a reference to a schema in a list is refused')
    S.check(S.implies(e is None, exists), 'a reference to nothing is accepted', known=('list-index', odd))
    if e is None:
        got = a.root.definitions['R'].ref_obj.maximum
        S.check(S.any(odd, *[S.all(S.same(t, str(i)), S.same(got, ms[i])) for i in range(n)]), 'another item of the list is taken')
