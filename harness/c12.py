"""C12 form and multipart bodies"""
import builtins
import io
from urllib.parse import parse_qsl
from symx.api import obligation
from harness.util import op_app, app, doc
from harness.mime import parts_of, expect

ASCII = [(0, 127)]


def fparam(name, typ='string', **k):
    return dict(k, name=name, type=typ, **{'in': 'formData'})


@obligation('form', bounds='one form field, its name one of 8 (also with reserved characters), any text: 1 Unicode character or up to 3 ASCII characters',
            cases=[dict(n=n, top=t) for n, t in ((0, 127), (1, 127), (1, 0x10ffff), (2, 127), (3, 127))],
            thorough=[dict(n=n, top=t) for n, t in ((2, 0x7ff), (5, 127))])
def form(S, n, top):
    name = S.choice('name', ['x', 'a b', 'a&b', 'a=b', 'a+b', '%41', '\u00e4', 'a[]'] if n != 1 or top < 128 else ['x'])
    t = S.str('t', n, n, [(0, min(top, 0xd7ff))] + ([(0xe000, top)] if top > 0xe000 else []))
    req, _ = op_app([fparam(name)], method='post').op['theOp'](**{name: t})
    req.prepare()
    d = req.data
    S.check(isinstance(d, str), 'the form is no text')
    S.check(S.all(*[S.not_(S.contains(d, c)) for c in ' \n;?#']), 'a reserved character is not encoded')
    S.check(S.same(parse_qsl(d, True), [(name, t)]), 'the form decodes to something else')
    S.check(req.header['Content-Type'] == 'application/x-www-form-urlencoded', 'the Content-Type is another one')


@obligation('forms', bounds='three fields (text, list of texts as multi, integer) in any of the orders of declaration, values up to 1 ASCII character, up to 2 list items',
            cases=[dict(alphabet='&=;+'), dict(alphabet='% ')], thorough=[dict(alphabet=ASCII)])
def forms(S, alphabet):
    ps = [fparam('a'), fparam('l', 'array', items={'type': 'string'}, collectionFormat='multi'), fparam('i', 'integer')]
    ps = [ps[i] for i in S.choice('order', [[0, 1, 2], [2, 1, 0], [1, 0, 2]])]
    vals = {'a': S.str('a', 1, 0, alphabet), 'i': S.int('i', -9, 9),
            'l': [S.str('l%d' % i, 1, 0, alphabet) for i in range(S.choice('n', [1, 2]))]}
    req, _ = op_app(ps, method='post').op['theOp'](**vals)
    req.prepare()
    want = []
    for p in ps:
        v = vals[p['name']]
        want.extend((p['name'], str(x)) for x in (v if isinstance(v, list) else [v]))
    S.check(S.same(parse_qsl(req.data, True), want), 'the form decodes to something else')


def upload(ps, args, encoding='utf-8'):
    req, _ = op_app(ps, method='post', consumes=['multipart/form-data']).op['theOp'](**args)
    req.prepare(encoding=encoding)
    return req


@obligation('content', bounds='one file with any content of up to 5 bytes or text of up to 2 characters, with or without the two part headers',
            cases=[dict(kind=k, n=n) for k in ('bytes', 'path') for n in (0, 1, 3, 5)] + [dict(kind='text', n=n) for n in (0, 1, 2)],
            thorough=[dict(kind='bytes', n=n) for n in (7, 9)])
def fcontent(S, kind, n):
    hdr = {}
    hs = {}
    if S.choice('ct', [False, True]):
        v = S.str('ctv', 3, 3, 'a/;') if n < 3 else 'text/plain'
        hdr['Content-Type'] = v
        hs[b'content-type'] = v
    if S.choice('cte', [False, True]):
        hdr['Content-Transfer-Encoding'] = hs[b'content-transfer-encoding'] = 'binary'
    if kind == 'text':
        t = S.str('t', n, n, None if n == 1 else ASCII)
        body, f = t.encode('utf-8'), dict(data=io.StringIO(t), filename='f.txt')
    else:
        body = S.bytes('b', n, n)
        f = dict(filename='f.txt', data=io.BytesIO(body))
        if kind == 'path':
            real = builtins.open
            f = dict(filename='/no/such/dir/f.txt')
            opened = []

            def fake(name, *a, **k):
                if name == '/no/such/dir/f.txt':
                    opened.append(name)
                    return io.BytesIO(body)
                return real(name, *a, **k)
            S.patch(builtins, 'open', fake)
    if hdr:
        f['header'] = hdr
    req = upload([fparam('up', 'file')], {'up': f})
    expect(S, parts_of(S, req), [('up', f['filename'], hs, body)])


NAMES = ['"', 'a"; filename="x', '\\', 'a\r\nX: y', '\n', '\u00e4', 'a;b=c', "it's", '%22', ' ', '\u20ac\U0001f600']


@obligation('names', bounds='file name: any text of 1 Unicode character, up to 3 of quote, backslash, CR, LF, ";", "=", "a"; field and file parameter names: one of 11 with such characters',
            cases=[dict(which='filename', n=n, alphabet=a) for n, a in ((1, None), (2, '"\\\r\n;=a'), (3, '"\r\n'))] + [dict(which=w, n=0, alphabet=None) for w in ('file', 'field')])
def fnames(S, which, n, alphabet):
    t = S.str('t', n, n, alphabet) if which == 'filename' else S.choice('t', NAMES)
    f = dict(filename='f', data=io.BytesIO(b'data'))
    up = 'up'
    if which == 'file':
        up = t
    if which == 'filename':
        f['filename'] = t
    ps, args = [fparam(up, 'file')], {up: f}
    want = [(up, f['filename'], {}, b'data')]
    if which == 'field':
        ps.append(fparam(t))
        args[t] = 'v'
        want.insert(0, (t, None, {}, b'v'))
    expect(S, parts_of(S, upload(ps, args)), want)


@obligation('same-names', bounds='a list of up to 3 files, a single file and a field whose file names are equal or not, contents of one byte, equal or not')
def same_names(S):
    n = S.choice('n', [1, 2, 3])
    args, want, l = {}, [], []
    for i in range(n):
        b = S.bytes('l%d' % i, 1, 1)
        name = S.choice('name%d' % i, ['f', 'g'])
        l.append(dict(filename=name, data=io.BytesIO(b)))
        want.append(('l', name, {}, b))
    args['l'] = l
    single = S.choice('has_f', [False, True])
    if single:
        b = S.bytes('b', 1, 1)
        args['f'] = dict(filename='f', data=io.BytesIO(b))
    got = parts_of(S, upload([fparam('f', 'file'), fparam('l', 'array', items={'type': 'file'})], args))
    expect(S, [g for g in got if g[0].get('name') == 'l'], want)
    expect(S, [g for g in got if g[0].get('name') != 'l'], [('f', 'f', {}, b)] if single else [])


@obligation('again', bounds='a file that holds the body of an earlier request (any content of up to 2 bytes) of the same operation, another one or one of another path')
def again(S):
    b = S.bytes('b', 2, 0)
    o = lambda i: {'operationId': i, 'parameters': [fparam('up', 'file')], 'responses': {}, 'consumes': ['multipart/form-data']}
    a = app(doc({'/p': {'post': o('one'), 'put': o('two')}, '/q': {'post': o('three')}}))

    def send(op, data):
        req, _ = a.op[op](up=dict(filename='f', data=io.BytesIO(data)))
        req.prepare()
        return req
    first = send('one', b)
    sent = first.data
    second = send(S.choice('op', ['one', 'two', 'three']), sent)
    expect(S, parts_of(S, second), [('up', 'f', {}, sent)])
    expect(S, parts_of(S, first), [('up', 'f', {}, b)])


@obligation('mixed', bounds='two form fields and up to three files (one single, a list of one or two), each optional, contents of up to 2 bytes of CR, LF, "-" or any, UTF-8 or Latin-1 fields',
            cases=[dict(enc=e) for e in ('utf-8', 'latin-1')])
def mixed(S, enc):
    ps = [fparam('x'), fparam('f', 'file'), fparam('l', 'array', items={'type': 'file'}), fparam('y', 'array', items={'type': 'string'}, collectionFormat='multi')]
    args, want = {}, []
    if S.choice('has_x', [False, True]):
        args['x'] = S.str('x', 1, 0, [(0, 255)])
        want.append(('x', None, {}, args['x'].encode(enc)))
    if S.choice('has_y', [False, True]):
        args['y'] = [S.str('y0', 1, 0, [(0, 127)]), 'second']
        want.extend(('y', None, {}, v.encode(enc)) for v in args['y'])
    single = S.choice('has_f', [False, True])
    many = S.choice('n', [1, 2] if not single else [0, 2])
    files = {}
    if single:
        b = S.bytes('b', 2, 0)
        args['f'] = dict(filename='f1', data=io.BytesIO(b), header={'Content-Type': 'image/png'})
        files['f1'] = ('f', 'f1', {b'content-type': 'image/png'}, b)
    if many:
        l = []
        for i in range(many):
            b = S.bytes('l%d' % i, 1, 1)
            l.append(dict(filename='l%d' % i, data=io.BytesIO(b)))
            files['l%d' % i] = ('l', 'l%d' % i, {}, b)
        args['l'] = l
    got = parts_of(S, upload(ps, args, enc), enc)
    nf = len(want)
    S.check(len(got) == nf + len(files), 'parts are lost or invented')
    fields = [g for g in got if 'filename' not in g[0]]
    rest = [g for g in got if 'filename' in g[0]]
    expect(S, fields, want)
    names = [g[0]['filename'] for g in rest]
    S.check(sorted(names) == sorted(files), 'files are lost or invented')
    if many == 2:
        S.check(names.index('l0') < names.index('l1'), 'the files of a list are sent in another order')
    for g in rest:
        expect(S, [g], [files[g[0]['filename']]])
