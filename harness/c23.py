"""C23 operations inherit exactly the declared document-level settings"""
from symx.api import obligation
from harness.util import app, doc, URL


def declared(S, name, n, kinds, used, refs, top, ab='ab'):
    """n parameters of one level; the names within a level are unique per location"""
    out, mine = [], []
    for i in range(n):
        k = S.str('%s%d' % (name, i), 1, 1, ab) if i == 0 else S.str('%s%d' % (name, i), 2, 1, 'ab')
        loc = S.choice('%s_in%d' % (name, i), kinds)
        for o in mine:
            S.assume(not (o[0] == k and o[1] == loc))
        mark = '%s-%d' % (name, i)
        mine.append((k, loc, mark))
        d = {'name': k, 'in': loc, 'type': 'string', 'description': mark}
        if refs:
            top['parameters'][mark] = d
            d = {'$ref': '#/parameters/' + mark}
        out.append(d)
    used.append(mine)
    return out


@obligation('parameters', bounds='up to two parameters of a path item and up to two of one operation (three altogether; and none or one of another), names of up to 2 characters of "ab" or one of "aA", three locations, written in place or by $ref',
            cases=[dict(np=a, no=b, refs=r) for a, b, r in ((1, 1, False), (2, 1, False), (1, 2, False), (2, 0, False), (1, 1, True), (2, 1, True))],
            thorough=[dict(np=2, no=2, refs=False), dict(np=2, no=2, refs=True), dict(np=3, no=1, refs=False)], budget=120)
def parameters(S, np, no, refs):
    used, top = [], {'parameters': {}}
    kinds = ['query', 'header', 'formData'] if np + no < 4 else ['query', 'header']
    pp = declared(S, 'p', np, kinds, used, refs, top, 'aA' if (np, no) == (1, 1) else 'ab')
    op = declared(S, 'o', no, kinds, used, refs, top, 'aA' if (np, no) == (1, 1) else 'ab')
    sib = S.choice('sibling', ['none', 'empty', 'one'])
    get = {'responses': {}}
    if no or S.choice('declared', [True, False]):
        get['parameters'] = op
    put = {'responses': {}}
    if sib == 'empty':
        put['parameters'] = []
    elif sib == 'one':
        put['parameters'] = [{'name': 'zzz', 'in': 'query', 'type': 'string', 'description': 'z'}]
    a = app(doc({'/p': {'parameters': pp, 'get': get, 'put': put}, '/q': {'get': {'responses': {}}}}, **top))
    item = a.root.paths['/p']

    def marks(o):
        return sorted([(p.final or p).description for p in o.parameters])
    want = [m for k, loc, m in used[1]] + [m for k, loc, m in used[0] if not any([k == x for x, y, _ in used[1]])]
    S.check(marks(item.get) == sorted(want), 'the effective parameters are others')
    S.check(marks(item.put) == sorted([m for _, _, m in used[0]] + (['z'] if sib == 'one' else [])), 'parameters of one operation appear at another one')
    S.check(marks(item) == sorted([m for _, _, m in used[0]]), 'the parameters of the path item are changed')
    S.check(a.root.paths['/q'].get.parameters == [], 'parameters of another path appear')


@obligation('more', bounds='two parameters of a path item (names of one letter of "abcdx", query), none to four of an operation ("a" to "d", in either order)')
def more(S):
    pn = [S.str('p%d' % i, 1, 1, 'abcdx') for i in range(2)]
    S.assume(not pn[0] == pn[1])
    own = list('abcd')[:S.choice('n', [0, 1, 2, 3, 4])]
    if S.choice('rev', [False, True]):
        own.reverse()

    def ps(names, mark):
        return [{'name': n, 'in': 'query', 'type': 'string', 'description': mark + n} for n in names]
    a = app(doc({'/p': {'parameters': ps(pn, 'p'), 'get': {'parameters': ps(own, 'o'), 'responses': {}}, 'put': {'responses': {}}}}))
    item = a.root.paths['/p']
    got = [p.description for p in item.get.parameters]
    want = ['o' + n for n in own] + ['p' + n for n in pn if not S.any(*[n == x for x in own])]
    S.check(S.same(sorted(got), sorted(want)), 'the effective parameters are others')
    S.check(S.same([p.description for p in item.put.parameters], ['p' + n for n in pn]), 'parameters of one operation appear at another one')


@obligation('settings', bounds='consumes, produces, security and schemes: absent, empty or one or two symbolic entries in the document and in each of two operations; the path item in place or by $ref',
            cases=[dict(field=f, ref=r) for f in ('consumes', 'produces', 'security', 'schemes') for r in (False, True)])
def settings(S, field, ref):
    def value(name):
        n = S.choice(name, ['absent', 'empty', 'one', 'two'])
        if n == 'absent':
            return None
        if n == 'empty':
            return []
        v = [S.choice(name + '_s', ['http', 'https', 'ws']) if field == 'schemes' else S.str(name + '_v', 2, 1, 'ab/')]
        if n == 'two':
            v.append('wss' if field == 'schemes' else 'zzz')
        return [{x: []} for x in v] if field == 'security' else v
    dv, gv = value('d'), value('g')
    pv = S.choice('p', [None, []])
    item = {'get': dict({'responses': {}}, **({} if gv is None else {field: gv})), 'put': dict({'responses': {}}, **({} if pv is None else {field: pv}))}
    top = {} if dv is None else {field: dv}
    other = 'http://h.x/api/o.json'
    a = app({URL: doc({'/p': {'$ref': other + '#/i'} if ref else item}, **top), other: {'i': item}}, strict=False)
    for o, v in ((a.root.paths['/p'].get, gv), (a.root.paths['/p'].put, pv)):
        if field == 'schemes':
            got = o.cached_schemes
            want = v or dv or ['http']
        else:
            got = getattr(o, field)
            want = dv if v is None else v
            if want is None:
                want = None if field == 'security' else []
        S.check(S.same(got, want), 'the effective setting is another one')
    S.check(S.same(getattr(a.root, field), ([] if field != 'security' else None) if dv is None else dv), 'the setting of the document is changed')
    # each operation has its own
    S.check(S.all(*[S.same(getattr(o, x), None if x == 'security' else []) for o in (a.root.paths['/p'].get, a.root.paths['/p'].put) for x in ('consumes', 'produces', 'security') if x != field]), 'another setting appears')


@obligation('together', bounds='a path item with two to seven methods, in place or by $ref, each operation with or without tags; a document with 0..3 security requirements, consumes and produces of two types: every operation has them, its URL, path and method')
def together(S):
    first = S.choice('first', VERBS)
    rest = S.choice('rest', ['one', 'all'])
    vs = [first] + ([VERBS[(VERBS.index(first) + S.choice('step', [1, 3, 5])) % 7]] if rest == 'one' else [v for v in VERBS if v != first])
    sec = [{'a': []}, {'b': ['x'], 'c': []}, {'d': []}][:S.choice('n', [0, 1, 2, 3])]
    tags = S.choice('tags', [None, ['t']])
    item = dict((v, dict({'responses': {}}, **({'tags': tags} if tags else {}))) for v in vs)
    other = 'http://h.x/api/o.json'
    paths = {'/p': {'$ref': other + '#/i'} if S.choice('ref', [False, True]) else item}
    a = app({URL: doc(paths, security=sec, consumes=['a/b', 'c/d'], produces=['e/f', 'g/h']), other: {'i': item}}, strict=False)
    it = a.root.paths['/p']
    for v in VERBS:
        o = getattr(it, v)
        S.check((o is not None) == (v in vs), 'an operation is lost or invented')
        if o is not None:
            S.check(o.security == sec and o.consumes == ['a/b', 'c/d'] and o.produces == ['e/f', 'g/h'], 'the effective setting is another one')
            S.check(o.url == '//h.x/b/p' and o.path == '/p' and o.method == v and o.base_path == '/b', 'path or method are others')


VERBS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']


@obligation('path', bounds='path templates of one or two characters (any ASCII character, or any of "~/%{}01"), two of them or in a referenced path item',
            cases=[dict(alphabet=a, n=n, ref=r) for a, n in (([(33, 126)], 1), ('~/%{}01', 2)) for r in (False, True)], thorough=[dict(alphabet='~/%{}01', n=3, ref=r) for r in (False, True)] + [dict(alphabet=[(1, 0x7ff)], n=1, ref=False)])
def path(S, alphabet, n, ref):
    t = '/' + S.str('path', n, 1, alphabet)
    S.assume(not t.startswith('//') and not t == '/q')
    o = {'get': {'responses': {}, 'operationId': 'theOp'}}
    paths = {'/q': {'get': {'responses': {}}}}
    paths[t] = {'$ref': 'http://h.x/api/o.json#/i'} if ref else o
    a = app({URL: doc(paths), 'http://h.x/api/o.json': {'i': o}}, strict=False)
    o = a.op['theOp']
    S.check(S.same(o.path, t) and o.method == 'get', 'path or method are others')
    S.check(S.same(o.url, '//h.x/b' + t), 'the URL is another one')
    S.check(a.root.paths['/q'].get.path == '/q', 'path or method are others')
    S.check(a.root.paths[t].get is o, 'another operation is found by its name')


@obligation('address', bounds='host and basePath (absent, empty or up to 3 characters), a path template of up to 3 characters of "/{a", any of seven verbs, document loaded from a URL with and without port or from a file',
            cases=[dict(url=u) for u in ('http://h.x/api/swagger.json', 'https://a.b:81/s.json', 'mem:/x')])
def address(S, url):
    top = {}
    host = S.choice('host', [None, 'x', '', 'localhost', 'localhost:80', 'h.x', '127.0.0.1'])
    if host == 'x':
        host = S.str('hostname', 2, 1, 'a.')
    base = S.choice('base', [None, '', '/', 'x'])
    if base == 'x':
        base = '/' + S.str('basepath', 2, 1, 'ab/')
        S.assume(not base.startswith('//'))
    d = doc({})
    for k, v in (('host', host), ('basePath', base)):
        if v is None:
            del d[k]
        else:
            d[k] = v
    verb = S.choice('verb', VERBS) if url[0] == 'm' else 'get'
    tmpl = '/' + S.str('path', 2, 0, '/{a')
    S.assume(not tmpl.startswith('//'))
    d['paths'][tmpl] = {verb: {'responses': {}}}
    a = app(d, url, strict=False)
    o = getattr(a.root.paths[tmpl], verb)
    S.check(S.same(o.path, tmpl) and o.method == verb, 'path or method are others')
    S.check(S.same(o.base_path, base), 'the base path is another one')
    h = host or {'http': 'h.x', 'http': 'h.x', 'https': 'a.b:81', 'mem': 'localhost'}[url.split(':')[0]]
    full = (base or '') + tmpl
    if full.startswith('//'):
        return
    S.check(S.same(o.url, '//' + h + full), 'the URL is another one')
    S.check(a.schemes == [url.split(':')[0]], 'the scheme is another one')
