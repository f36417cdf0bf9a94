"""C22 operation and model lookup finds the one that was asked for"""
from symx.api import obligation
from pyswagger.utils import ScopeDict
from pyswagger.errs import SchemaError
from harness.util import app, doc, load, URL


def lookup(S, d, key):
    e, v = S.fn_raises((KeyError, ValueError), lambda: d[key])
    return None if e else v


@obligation('scopes', bounds='two or three entries of one to three names, names of up to 2 characters of "ab-", looked up by one or two names of up to 2 characters, as a tuple or joined, two separators',
            cases=[dict(sep=s, sizes=z) for s in ('!', '!##!') for z in ([1, 2], [2, 2], [3, 2])] + [dict(sep='.', sizes=[1, 2, 2], one=True)],
            thorough=[dict(sep='!', sizes=z) for z in ([2, 2, 2], [3, 3], [1, 2, 3])])
def scopes(S, sep, sizes, one=False):
    keys, d = [], {}
    for i, n in enumerate(sizes):
        k = [S.str('k%d_%d' % (i, j), 1 if one or n == 3 else 2, 1, 'ab-' if n < 3 else 'ab') for j in range(n)]
        for o in keys:
            S.assume(not (len(o) == len(k) and all([x == y for x, y in zip(o, k)])))
        keys.append(k)
        d[sep.join(k)] = i
    d = ScopeDict(d)
    d.sep = sep
    q = [S.str('q%d' % j, 1 if one else 2, 1, 'ab-') for j in range(S.choice('m', [1, 2]))]
    exact = [i for i, k in enumerate(keys) if k == q]
    found = exact or [i for i, k in enumerate(keys) if k[-len(q):] == q]
    want = found[0] if len(found) == 1 else None
    got = lookup(S, d, tuple(q) if len(q) > 1 else q[0])
    S.check(got == want, 'another entry is found')
    S.check(lookup(S, d, sep.join(q)) == want, 'another entry is found by the joined key')
    for k, i in zip(keys, range(len(keys))):
        S.check(d[tuple(k)] == i and d[sep.join(k)] == i, 'an entry is not found by its own key')


@obligation('operations', bounds='two operations (of one or two paths) with operationIds of up to 2 characters of "ab" and none, one or two tags of 1 or 2 characters each; looked up by any tag and id, and by any id of up to 2 characters',
            cases=[dict(ta=a, tb=b, same=s) for a, b, s in ((0, 1, True), (1, 1, False), (2, 1, True), (0, 0, False), (2, 2, False), (0, 2, False))], budget=120)
def operations(S, ta, tb, same):
    ids = [S.str('id0', 2, 1, 'ab'), S.str('id1', 1, 1, 'ab')]
    tags = [[S.str('t0_%d' % i, 1, 1, 'ab') for i in range(ta)], [S.str('t1_%d' % i, 1, 1, 'ab') for i in range(tb)]]
    ops = [dict({'operationId': i, 'responses': {}}, **({'tags': t} if t else {})) for i, t in zip(ids, tags)]
    paths = {'/p': {'get': ops[0], 'put': ops[1]}} if same else {'/p': {'get': ops[0]}, '/q': {'get': ops[1]}}
    dup = ids[0] == ids[1] and (any([x == y for x in tags[0] for y in tags[1]]) or (not ta and not tb))
    e, a = S.fn_raises(SchemaError, lambda: app(doc(paths)))
    S.check((e is not None) == dup, 'operations of one name are accepted, or distinct ones refused')
    if e:
        return
    want = [a.root.paths['/p'].get, a.root.paths['/p'].put if same else a.root.paths['/q'].get]
    for i in range(2):
        for t in tags[i]:
            S.check(a.op[t, ids[i]] is want[i], 'an operation is not found under its tag and id')
    keys = list(a.op)
    q = S.str('q', 2, 1, 'ab')
    t = S.str('qt', 1, 1, 'ab')
    for key, found in ((q, [i for i in range(2) if ids[i] == q]), ((t, q), [i for i in range(2) if ids[i] == q and any([t == x for x in tags[i]])])):
        if not isinstance(key, tuple) and len(found) == 2 and (not ta) != (not tb):
            # the one without tags has exactly this key
            found = [0 if not ta else 1]
        got = lookup(S, a.op, key)
        S.check(got is (want[found[0]] if len(found) == 1 else None), 'another operation is found')
    S.check(S.same(list(a.op), keys), 'looking up changes the operations')


@obligation('three', bounds='three or four operations with one of two operationIds (also with blanks around) and none, one or two of three tags: every key of an operation finds it, an ambiguous or unknown one is refused')
def three(S):
    ids = ['x', S.choice('id', ['x', ' x', 'x ', 'y'])]
    use = [S.choice('i%d' % i, [0, 1]) for i in range(2)] + [0]
    tags = [S.choice('t%d' % i, [['a'], ['a', 'b'], ['c'], []]) for i in range(2)] + [['d']]
    ops = [dict({'operationId': ids[u], 'responses': {}}, **({'tags': t} if t else {})) for u, t in zip(use, tags)]
    keys = [[(t, ids[u]) for t in ts] or [(ids[u],)] for u, ts in zip(use, tags)]
    dup = any(k in keys[j] for i in range(3) for j in range(i) for k in keys[i])
    e, a = S.fn_raises(SchemaError, lambda: app(doc({'/p': {'get': ops[0], 'put': ops[1]}, '/q': {'get': ops[2]}})))
    S.check((e is not None) == dup, 'operations of one name are accepted, or distinct ones refused')
    if e:
        return
    want = [a.root.paths['/p'].get, a.root.paths['/p'].put, a.root.paths['/q'].get]
    for i in range(3):
        for k in keys[i]:
            S.check(lookup(S, a.op, k if len(k) > 1 else k[0]) is want[i], 'an operation is not found under its tag and id')
    for q in ('x', 'y', ' x', 'x ', ''):
        found = [i for i in range(3) if (q,) in keys[i]] or [i for i in range(3) if any(k[-1] == q for k in keys[i])]
        got = lookup(S, a.op, q)
        S.check(got is (want[found[0]] if len(found) == 1 else None), 'another operation is found')


@obligation('separators', bounds='an App of a 2.0 description with a separator of its own (one of three): models and operations whose names contain a separator are found by their last name, the whole name, or a tuple')
def separators(S):
    sep = S.choice('sep', ['!##!', '.', '--'])
    n, q = S.str('n', 1, 1, 'ab'), S.str('q', 1, 1, 'ab')
    other = S.choice('other', ['.', '--', '!##!'])
    d = {}
    d['g' + other + n] = {'type': 'integer', 'maximum': 7}
    a = app(doc({'/p': {'get': {'operationId': n, 'tags': ['t'], 'responses': {}}}}, definitions=d), sep=sep)
    got = lookup(S, a.m, q)
    S.check((got is not None) == (sep == other and q == n), 'a model is found by a part of its name, or not found')
    S.check(a.m['g' + other + n].maximum == 7, 'a model is not found by its name')
    S.check((lookup(S, a.m, ('g', q)) is not None) == (sep == other and q == n), 'a model is found by another tuple')
    S.check((lookup(S, a.op, ('t', q)) is not None) == (q == n) and (lookup(S, a.op, 't' + other + q) is not None) == (sep == other and q == n), 'another operation is found')


@obligation('models', bounds='two definitions with names of up to 3 characters of "ab!#" and any other name of up to 3 characters')
def models(S):
    n = [S.str('n0', 3, 1, 'ab'), S.str('n1', 2, 1, 'ab!#')]
    S.assume(n[0] != n[1])
    d = {}
    d[n[0]] = {'type': 'integer', 'maximum': 1}
    d[n[1]] = {'type': 'integer', 'maximum': 2}
    a = app(doc({}, definitions=d))
    q = S.str('q', 3, 1, 'ab')
    got = lookup(S, a.m, q)
    want = 1 if q == n[0] else 2 if q == n[1] else None
    S.check((got.maximum if got is not None else None) == want, 'another model is found')
    for i in range(2):
        S.check(a.m[n[i]].maximum == i + 1 and a.m[n[i]].name == n[i], 'a model is not found by its name')


@obligation('upgraded', bounds='a 1.2 description of two resources with names, nicknames and model names of 1 or 2 characters; separators "!##!" and "."',
            cases=[dict(sep=s) for s in ('!##!', '.')])
def upgraded(S, sep):
    rs = ['/' + S.str('r%d' % i, 1, 1, 'ab') for i in range(2)]
    S.assume(rs[0] != rs[1])
    nick = [S.str('n%d' % i, 1, 1, 'ab') for i in range(2)]
    mod = [S.str('m%d' % i, 1, 1, 'ab') for i in range(2)]
    base = 'http://h.x/api'
    docs = {base: {'swaggerVersion': '1.2', 'info': {'title': 't', 'description': 'd'}, 'apis': [{'path': r} for r in rs]}}
    for i in range(2):
        ms = {}
        ms[mod[i]] = {'id': mod[i], 'required': [], 'properties': {'p%d' % i: {'type': 'integer'}}}
        docs[base + rs[i]] = {'swaggerVersion': '1.2', 'basePath': 'http://h.x/b', 'apis': [{'path': rs[i], 'operations': [{'method': 'GET', 'nickname': nick[i], 'type': 'void', 'parameters': []}]}], 'models': ms}
    a = app(docs, base, sep=sep)
    for i in range(2):
        r = rs[i][1:]
        S.check(a.op[r, nick[i]].path == '/b' + rs[i], 'an operation is not found')
        S.check(list(a.m[r, mod[i]].properties) == ['p%d' % i], 'a model is not found')
        S.check(a.m[r, mod[i]].name == mod[i], 'a model has another name')
    S.check((lookup(S, a.op, nick[0]) is None) == (nick[0] == nick[1]), 'an ambiguous operation is found')
    S.check((lookup(S, a.m, mod[0]) is None) == (mod[0] == mod[1]), 'an ambiguous model is found')
