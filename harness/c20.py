"""C20 references are normalised like RFC 3986 relative URLs"""
from symx.api import obligation
from pyswagger.utils import normalize_jr
from harness.util import app, doc, load


def remove_dots(path):
    """RFC 3986, 5.2.4 (for absolute paths)"""
    out = []
    segs = path.split('/')[1:]
    for i, s in enumerate(segs):
        if s == '.' or s == '..':
            if s == '..' and out:
                out.pop()
            if i == len(segs) - 1:
                out.append('')
        else:
            out.append(s)
    return '/' + '/'.join(out)


def rfc3986(base, ref):
    """base: (scheme, authority, path), ref without scheme, query and fragment"""
    scheme, auth, path = base
    if ref.startswith('//'):
        rest = ref[2:]
        i = rest.find('/')
        auth, p = (rest, '') if i < 0 else (rest[:i], rest[i:])
        return scheme + '://' + auth + (remove_dots(p) if len(p) else '')
    if ref == '':
        return scheme + '://' + auth + path
    if not ref.startswith('/'):
        ref = path[:path.rfind('/') + 1] + ref
    return scheme + '://' + auth + remove_dots(ref)


BASES = [('http', 'test.com', '/api/v1/swagger.json'), ('https', 'h:81', '/swagger.json'), ('file', '', '/a/b/c.json'), ('http', 'h', '/d/')]


def plausible(S, ref):
    """three dots in a row, and a directory as target, are left out"""
    for s in ref.split('/'):
        S.assume(not s.startswith('...'))
    last = ref.split('/')[-1]
    S.assume(not last == '.' and not last == '..')


@obligation('relative', bounds='relative references of up to 5 characters of "./ab" (5 of "./"), four base URLs, with or without pointer of up to 2 characters',
            cases=[dict(base=b, n=n, alphabet='./ab') for b in range(4) for n in (1, 2, 3, 4)] + [dict(base=0, n=5, alphabet='./')],
            thorough=[dict(base=b, n=5, alphabet='./ab') for b in range(4)] + [dict(base=0, n=n, alphabet='./a') for n in (6, 7)])
def relative(S, base, n, alphabet):
    base = BASES[base]
    ref = S.str('ref', n, n, alphabet)
    plausible(S, ref)
    S.assume(not ref.startswith('//') or (not ref.startswith('///') and '/' in ref[2:]))
    url = base[0] + '://' + base[1] + base[2]
    want = rfc3986(base, ref)
    S.assume(not want.startswith('file:////'))
    got = normalize_jr(ref, url)
    S.observe('got', got)
    S.check(S.same(got, want), 'the reference is another one')
    got = normalize_jr(ref + '#/d/A', url)
    S.check(S.same(got, want + '#/d/A'), 'the reference with a pointer is another one')


@obligation('climb', bounds='three segments, each "..", ".", empty or one character, and a file name, after any of four bases, absolute or relative',
            cases=[dict(base=b) for b in range(4)])
def climb(S, base):
    base = BASES[base]
    segs = [S.choice('s%d' % i, ['..', '.', '', 'x']) for i in range(3)]
    segs = [S.str('n%d' % i, 1, 1, 'ab') if s == 'x' else s for i, s in enumerate(segs)]
    ref = S.choice('root', ['', '/']) + '/'.join(segs) + '/' + S.str('f', 2, 1, 'a-') + '.json'
    S.assume(not ref.startswith('//'))
    url = base[0] + '://' + base[1] + base[2]
    want = rfc3986(base, ref)
    S.assume(not want.startswith('file:////'))
    S.check(S.same(normalize_jr(ref, url), want), 'the reference is another one')


@obligation('pointer', bounds='references of a pointer only (up to 2 printable characters), with and without base; absolute references with any path of up to 2 characters of "./a" are kept')
def pointer(S):
    url = S.choice('url', ['http://test.com/api/swagger.json', 'file:///a/b', None])
    p = S.str('p', 2, 0, [(33, 126)])
    S.check(S.same(normalize_jr('#/' + p, url), (url or '') + '#/' + p), 'a reference into the same document leaves it')
    t = 'http://other/' + S.str('t', 2, 0, './a')
    S.check(S.same(normalize_jr(t, url), t), 'an absolute reference is changed')
    S.check(S.same(normalize_jr(t + '#/' + p, url), t + '#/' + p), 'an absolute reference is changed')
    S.check(normalize_jr(None, url) is None, 'a reference is invented')
    if url:
        S.check(normalize_jr('#', url) == url, 'a reference to the whole document leads elsewhere')
    # once normalised, it stays so
    r = normalize_jr(S.str('r', 2, 1, 'a./') + '#/' + p, url)
    if url:
        S.check(S.same(normalize_jr(r, url), r), 'normalising again changes the reference')


KINDS = ['schema', 'items', 'allOf', 'addp', 'param', 'response', 'body']


@obligation('document', bounds='references in seven places of a document of either of two URLs, to a file of up to 3 characters of "./a" in a folder or to the document itself',
            cases=[dict(kind=k) for k in KINDS])
def document(S, kind):
    base = S.choice('base', BASES[:2])
    url = base[0] + '://' + base[1] + base[2]
    name = S.str('name', 3, 1, './a')
    plausible(S, name)
    S.assume(not name.startswith('//'))
    same = S.choice('same', [False, True])
    ref = '#/definitions/T' if same else name + '#/definitions/T'
    r = {'$ref': ref}
    paths, top = {}, {'definitions': {'T': {'type': 'integer'}}}
    if kind == 'schema':
        top['definitions']['A'] = {'type': 'object', 'properties': {'x': r}}
    elif kind == 'items':
        top['definitions']['A'] = {'type': 'array', 'items': r}
    elif kind == 'allOf':
        top['definitions']['A'] = {'allOf': [r]}
    elif kind == 'addp':
        top['definitions']['A'] = {'type': 'object', 'additionalProperties': r}
    elif kind == 'param':
        top['parameters'] = {'A': {'name': 'b', 'in': 'body', 'schema': r}}
    elif kind == 'response':
        top['responses'] = {'A': {'description': '', 'schema': r}}
    else:
        paths = {'/p': {'post': {'responses': {}, 'parameters': [{'name': 'b', 'in': 'body', 'schema': r}]}}}
    target = url if same else rfc3986(base, name)
    a = app({url: doc(paths, **top), target: doc({}, definitions={'T': {'type': 'integer', 'maximum': 7}})} if not same and target != url else {url: doc(paths, **top)}, url)
    root = a.root
    o = {'schema': lambda: root.definitions['A'].properties['x'], 'items': lambda: root.definitions['A'].items, 'allOf': lambda: root.definitions['A'].allOf[0],
         'addp': lambda: root.definitions['A'].additionalProperties, 'param': lambda: root.parameters['A'].schema, 'response': lambda: root.responses['A'].schema,
         'body': lambda: root.paths['/p'].post.parameters[0].schema}[kind]()
    S.check(S.same(getattr(o, '$ref'), target + '#/definitions/T'), 'the reference is another one')
    S.check(o.ref_obj.maximum == (None if same or target == url else 7), 'the reference leads elsewhere')
