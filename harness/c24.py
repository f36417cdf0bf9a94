"""C24 reference cycles are detected exactly and never hang"""
from symx.api import obligation
from pyswagger import errs
from pyswagger.utils import walk, deref, CycleGuard
from pyswagger.scanner import CycleDetector
from pyswagger.scan import Scanner
from harness.util import app, doc, load, URL


def reachable(edges, a, b):
    """is there a path of at least one edge from a to b?"""
    todo, seen = list(edges.get(a, [])), set()
    while todo:
        n = todo.pop()
        if n == b:
            return True
        if n not in seen:
            seen.add(n)
            todo.extend(edges.get(n, []))
    return False


def cyclic(edges):
    return any([reachable(edges, n, n) for n in edges])


def real_cycle(edges, c):
    return len(c) > 1 and c[0] == c[-1] and len(set(c[:-1])) == len(c) - 1 and all([c[i + 1] in edges.get(c[i], []) for i in range(len(c) - 1)])


@obligation('walk', bounds='every directed graph on 3 vertices; those on 4 vertices with up to 2 edges of the first vertex and one of each other (thorough: two each)',
            cases=[dict(n=3, k=3), dict(n=4, k=1)], thorough=[dict(n=4, k=2)], budget=120)
def walk_(S, n, k):
    vs = [3, 1, 2, 0][:n]
    edges = {}
    for v in vs:
        if k == 3:
            edges[v] = [w for w in vs if S.bool('e%d%d' % (v, w))]
        else:
            edges[v] = S.choice('e%d' % v, [[]] + [[w] for w in vs] + [[w, x] for w in vs for x in vs if w <= x]) if v == vs[0] or k == 2 else S.choice('e%d' % v, [[]] + [[w] for w in vs])
    start = vs[0]
    got = walk(start, lambda v: edges[v], [])
    want = set(v for v in vs if (v == start or reachable(edges, start, v)) and reachable(edges, v, v))
    S.check(S.all(*[real_cycle(edges, c) and c[0] == min(c) for c in got]), 'a cycle is reported that is none')
    S.check(set([v for c in got for v in c]) == want, 'a cycle is missed')
    S.check(all([got.count(c) == 1 for c in got]), 'a cycle is reported twice')
    again = walk(start, lambda v: edges[v], list(got))
    S.check(again == got, 'known cycles are reported again')


KINDS = ['ref', 'property', 'items', 'allOf', 'addp', 'deep']


def wrap(kind, r, name):
    if kind == 'ref':
        return dict(r)
    if kind == 'beside':
        return dict(r, type='object', properties={'w': {'type': 'string'}}, allOf=[{'type': 'object'}])
    if kind == 'property':
        return {'type': 'object', 'properties': {'p': r}}
    if kind == 'items':
        return {'type': 'array', 'items': r}
    if kind == 'allOf':
        return {'allOf': [{'type': 'object'}, r]}
    if kind == 'addp':
        return {'type': 'object', 'additionalProperties': r}
    return {'type': 'object', 'properties': {'q': {'type': 'array', 'items': {'allOf': [{'properties': {'z': r}}]}}}}


@obligation('schemas', bounds='every graph on three schemas with at most one reference from each, of six kinds (itself, also beside other fields, property, items, allOf, additionalProperties, nested); in one document or over two',
            cases=[dict(k0=k, far=k in ('property', 'allOf')) for k in KINDS] + [dict(k0='ref', far=True), dict(k0='beside', far=False)], budget=120,
            thorough=[dict(k0=k, far=f, full=True) for k in KINDS for f in (False, True)])
def schemas(S, k0, far, full=False):
    names = ['A', 'B', 'C']
    other = 'http://h.x/api/o.json'
    at = {'A': URL, 'B': other if far else URL, 'C': URL}
    edges, d = {}, {URL: {}, other: {}}
    for i, n in enumerate(names):
        t = S.choice('t%d' % i, [None] + names)
        if t is None:
            edges[n] = []
            d[at[n]][n] = {'type': 'object'}
            continue
        edges[n] = [t]
        kind = k0 if i == 0 else S.choice('k%d' % i, KINDS) if full else S.choice('k%d' % i, ['ref', 'allOf', 'addp'] if k0 in ('ref', 'items', 'deep') else ['ref', 'items', 'property']) if i == 1 else ['property', 'ref', 'items'][len(k0) % 3]
        d[at[n]][n] = wrap(kind, {'$ref': ('' if at[n] == at[t] else at[t]) + '#/definitions/' + t}, n)
    docs = {URL: doc({}, definitions=d[URL]), other: {'definitions': d[other]}}
    e, a = S.fn_raises(errs.CycleDetectionError, lambda: app(docs))
    # those that the document leads to
    root = [n for n in names if at[n] == URL]
    seen = [n for n in names if n in root or any([reachable(edges, m, n) for m in root])]
    want = cyclic({n: edges[n] for n in seen})
    S.check((e is not None) == want, 'a cycle is missed, or reported without one')
    # and again without being strict
    a = app(docs, strict=False)
    cy = CycleDetector()
    Scanner(a).scan(root=a.root, route=[cy])
    got = [[x[-1:] for x in c] for c in cy.cycles['schema']]
    S.check(S.all(*[real_cycle(edges, c) for c in got]), 'a cycle is reported that is none')
    S.check(set([v for c in got for v in c]) == set([n for n in seen if reachable(edges, n, n)]), 'a cycle is missed')
    # everything ends
    for n in seen:
        o = a.resolve(at[n] + '#/definitions/' + n)
        e, f = S.fn_raises(errs.CycleDetectionError, lambda: deref(o))
        k = n
        path = []
        while '$ref' in d[at[k]][k] and k not in path:
            path.append(k)
            k = edges[k][0]
        S.check((e is not None) == (k in path), 'following references fails without cycle, or loops')
        S.fn_raises(Exception, lambda: a.prim_factory.produce(o, {}))
        S.fn_raises(Exception, lambda: a.prim_factory.produce(o, {'p': {'p': {}}, 'x': {'x': 1}}))


@obligation('long', bounds='chains of 2, 9 or 14 schemas (by $ref, property or items), the last with or without a reference back to the first, second, middle or last one')
def long_(S):
    n = S.choice('n', [2, 9, 14])
    back = S.choice('back', [None, 0, 1, n // 2, n - 1])
    kind = S.choice('kind', ['ref', 'property', 'items'])
    names = ['D%02d' % i for i in range(n)]
    to = dict(zip(names, names[1:]))
    if back is not None:
        to[names[-1]] = names[back]
    order = names if S.choice('order', [True, False]) else names[::-1]
    d = dict((x, wrap(kind, {'$ref': '#/definitions/' + to[x]}, x) if x in to else {'type': 'object'}) for x in order)
    e, _ = S.fn_raises(errs.CycleDetectionError, lambda: app(doc({}, definitions=d)))
    S.check((e is not None) == (back is not None), 'a cycle is missed, or reported without one')
    a = app(doc({}, definitions=d), strict=False)
    cy = CycleDetector()
    Scanner(a).scan(root=a.root, route=[cy])
    got = [[x[-3:] for x in c] for c in cy.cycles['schema']]
    S.check(got == ([] if back is None else [names[back:] + [names[back]]]), 'other cycles are reported')


@obligation('several', bounds='a schema with two references of any two of five kinds, each to itself, to one of two others or to a leaf; the others with up to one reference each',
            cases=[dict(k0=k) for k in KINDS[1:]])
def several(S, k0):
    names = ['A', 'B', 'C']
    k1 = S.choice('k1', [k for k in KINDS[1:] if k >= k0])
    t = [S.choice('t%d' % i, names + ['L']) for i in range(2)]
    edges = {'A': list(t), 'L': []}
    a = {}
    for k, x in zip((k0, k1), t):
        for f, v in wrap(k, {'$ref': '#/definitions/' + x}, 'A').items():
            if isinstance(v, dict) and k == 'property' and 'properties' in a:
                a[f]['p2'] = v['p']
            elif isinstance(v, dict) and f == 'properties' and f in a:
                a[f] = dict(a[f], **dict((n + '2', w) for n, w in v.items()))
            elif f == 'allOf':
                a[f] = a.get(f, []) + v
            elif f in ('items', 'additionalProperties') and f in a:
                a[f] = {'allOf': [a[f], v]}
            else:
                a[f] = v
    defs = {'A': a, 'L': {'type': 'object'}}
    for i, n in enumerate(names[1:]):
        x = S.choice('u%d' % i, [None, 'A'])
        edges[n] = [] if x is None else [x]
        defs[n] = {'type': 'object'} if x is None else wrap(['ref', 'addp'][i], {'$ref': '#/definitions/' + x}, n)
    d = doc({}, definitions=defs)
    e, _ = S.fn_raises(errs.CycleDetectionError, lambda: app(d))
    S.check((e is not None) == cyclic(edges), 'a cycle is missed, or reported without one')
    p = app(d, strict=False)
    cy = CycleDetector()
    Scanner(p).scan(root=p.root, route=[cy])
    got = [[x[-1:] for x in c] for c in cy.cycles['schema']]
    S.check(S.all(*[real_cycle(edges, c) for c in got]), 'a cycle is reported that is none')
    S.check(set([v for c in got for v in c]) == set([n for n in edges if reachable(edges, n, n)]), 'a cycle is missed')


@obligation('values', bounds='a schema that contains itself as property, item or additional property: values of up to three levels with a symbolic leaf are converted, each level under the definition',
            cases=[dict(kind=k) for k in ('property', 'items', 'addp', 'both')])
def values(S, kind):
    r = {'$ref': '#/definitions/T'}
    lim = S.int('lim', -5, 5)
    leaf = {'type': 'integer', 'maximum': lim}
    if kind == 'property':
        t = {'type': 'object', 'properties': {'v': leaf, 'n': r}}
    elif kind == 'items':
        t = {'type': 'object', 'properties': {'v': leaf, 'n': {'type': 'array', 'items': r}}}
    elif kind == 'addp':
        t = {'type': 'object', 'properties': {'v': leaf}, 'additionalProperties': r}
    else:
        t = {'type': 'object', 'properties': {'v': leaf, 'n': {'$ref': '#/definitions/U'}}}
    a = app(doc({}, definitions={'T': t, 'U': {'type': 'object', 'properties': {'n': r}}}), strict=False)
    e, _ = S.fn_raises(errs.CycleDetectionError, lambda: app(doc({}, definitions={'T': t, 'U': {'type': 'object', 'properties': {'n': r}}})))
    S.check(e is not None, 'a cycle is missed')
    x = S.int('x', -9, 9)
    depth = S.choice('depth', [0, 1, 2, 3])
    val = {'v': x}
    for i in range(depth):
        if kind == 'items':
            val = {'v': lim, 'n': [{'v': lim}, val]}
        elif kind == 'both':
            val = {'v': lim, 'n': {'n': val}}
        else:
            val = {'v': lim, 'n': val}
    e, got = S.fn_raises(errs.ValidationError, lambda: a.prim_factory.produce(a.resolve('#/definitions/T'), val))
    S.check((e is not None) == (x > lim), 'a nested value is judged wrongly')
    if e is None:
        for i in range(depth):
            got = got['n'][1] if kind == 'items' else got['n']['n'] if kind == 'both' else got['n']
        S.check(S.same(got['v'], x), 'a nested value is another one')


OTHERS = ['parameter', 'response', 'pathitem']


@obligation('others', bounds='every graph on three parameters, responses or path items with at most one $ref each: preparation ends, and the cycles found are the real ones',
            cases=[dict(kind=k) for k in OTHERS])
def others(S, kind):
    names = ['a', 'b', 'c']
    edges, d = {}, {}
    for i, n in enumerate(names):
        t = S.choice('t%d' % i, [None] + names)
        edges[n] = [] if t is None else [t]
        base = {'parameter': {'name': 'x', 'in': 'query', 'type': 'string'}, 'response': {'description': 'x'}, 'pathitem': {'get': {'responses': {}}}}[kind]
        d[n] = base if t is None else {'$ref': {'parameter': '#/parameters/', 'response': '#/responses/', 'pathitem': '#/paths/~1'}[kind] + t}
    if kind == 'pathitem':
        docs = doc({'/' + n: v for n, v in d.items()})
    elif kind == 'parameter':
        docs = doc({}, parameters=d)
    else:
        docs = doc({}, responses=d)
    a = load(docs)
    S.fn_raises(errs.ValidationError, lambda: a.prepare())
    a = app(docs, strict=False)
    cy = CycleDetector()
    Scanner(a).scan(root=a.raw, route=[cy])
    got = [[x[-1:] for x in c] for c in cy.cycles['path_item' if kind == 'pathitem' else kind]]
    S.check(S.all(*[real_cycle(edges, c) for c in got]), 'a cycle is reported that is none')
    S.check(set([v for c in got for v in c]) == set([n for n in names if reachable(edges, n, n)]), 'a cycle is missed')
