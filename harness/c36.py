"""C36 descriptions are fetched from where they are named and taken as they are"""
import codecs
import io
import json
import os
import urllib.request
from symx.api import obligation
from pyswagger import App, getter as getter_mod
from pyswagger.resolve import Resolver
from pyswagger.getter import Getter, SimpleGetter, UrlGetter, LocalGetter, DictGetter
from harness.util import doc
from harness.v12 import op12, res12, docs12

STUB = 'OpenerDirector.open() (below urlopen()) answers from a table of documents, open() from a table of files'
CHARS = 'aZ.-_~%?=&;:@,+ \u00e9'


class Stream(object):
    """what urlopen() gives"""
    def __init__(self, web, data):
        self.web, self.data = web, data

    def read(self, *a):
        if isinstance(self.data, Exception):
            raise self.data
        d, self.data = self.data, b''
        return d

    def close(self):
        self.web.closed += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Web(object):
    def __init__(self, S, pages, files=()):
        self.pages, self.files, self.log, self.closed = pages, files, [], 0
        S.patch(urllib.request.OpenerDirector, 'open', lambda opener, url, *a, **k: self.open(url))
        S.patch(getter_mod, 'open', self.open_file)
        S.patch(io, 'open', self.open_file)
        S.patch(codecs, 'open', self.open_file)
        S.patch(os.path, 'isfile', lambda p: any(p == f for f, _ in files))

    def open(self, url, *a, **k):
        self.log.append(url)
        for u, d in self.pages:
            if url == u:
                return Stream(self, d)
        raise IOError('404')

    def open_file(self, path, *a, **k):
        self.log.append(path)
        for u, d in self.files:
            if path == u:
                return Stream(self, d)
        raise IOError('no such file')


def titled(title, **k):
    d = doc({}, **k)
    d['info'] = {'title': title, 'version': '1'}
    return d


def enc(d):
    return json.dumps(d).encode('utf-8')


@obligation('url', bounds='URLs http(s)://h/p/ + up to 2 characters of "aZ.-_~%?=&;:@,+ \u00e9", a title of one character; opening or reading fails or not; no empty query at the end',
            cases=[dict(scheme=s, n=n, how=h) for s in ('http', 'https') for n in (1, 2) for h in ('load', 'create')], stubs=STUB)
def url_(S, scheme, n, how):
    seg = S.str('seg', n, n, CHARS)
    # an empty query is dropped
    S.assume(not S.any(seg.endswith('?'), seg.endswith(';')))
    url = scheme + '://h/p/' + seg
    title = S.str('title', 1, 0, 'a"\u00e9')
    fail = S.choice('fail', [None, 'open', 'read'])
    data = enc(titled(title))
    pages = [(url + x, enc(titled('wrong'))) for x in ('/', '/swagger.json', '.json')]
    if fail != 'open':
        pages.append((url, data if fail is None else IOError('broken')))
    web = Web(S, pages)
    e, a = S.fn_raises(Exception, App.load if how == 'load' else App.create, url)
    S.observe('log', web.log)
    S.check(S.same(web.log, [url]), 'another URL than the given one is opened')
    S.check(web.closed == (0 if fail == 'open' else 1), 'the connection is not closed')
    S.check(S.iff(e is None, fail is None), 'a failure is hidden, or a good document refused')
    if e is not None:
        S.check(isinstance(e, IOError), 'the failure is another one')
        return
    S.check(S.same(a.raw.info.title, title), 'the document is changed on the way')
    S.check(S.same(a.url, url), 'the App has another URL')
    S.check(list(a.schemes) == [scheme], 'the scheme of the URL is not the one of the description')
    S.check((a.root is None) == (how == 'load'), 'it is not prepared as it should be')


@obligation('related', bounds='Swagger 1.2: resource list at http://h/ + up to 2 characters, with or without a known extension or a trailing slash; two resource names of 1 or 2 characters of "aZ.-_"',
            cases=[dict(ext=e, n=n) for e in ('', '.json', '.yaml', '/') for n in (1, 2)], stubs=STUB)
def related(S, ext, n):
    seg = S.str('seg', n, 1, 'ab-_')
    names = [S.str('r%d' % i, n if i == 0 else 1, 1, 'aZ-_') for i in range(2)]
    S.assume(names[0] != names[1])
    root = 'http://h/d/' + seg + ext
    base = 'http://h/d/' if ext in ('.json', '.yaml') else 'http://h/d/' + seg + '/'
    m = [S.int('m%d' % i, 0, 9) for i in range(2)]
    pages = [(root, enc({'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/' + x} for x in names], 'info': {'title': 't', 'description': 'd'}}))]
    for i, x in enumerate(names):
        pages.append((base + x, enc(res12([], resourcePath='/%d' % i))))
    web = Web(S, pages)
    e, a = S.fn_raises(Exception, App.load, root)
    S.observe('log', web.log)
    S.check(S.same(web.log, [root] + [base + x for x in names]), 'the resources are not fetched once each from beside the resource list')
    S.check(e is None, 'resources are not found')
    for i, x in enumerate(names):
        S.check(a.raw.apis[x].resourcePath == '/%d' % i, 'a resource is taken for another one')


@obligation('references', bounds='a description at an http, https or file URL referring to two other documents with absolute URLs of these schemes or relative ones, with names of up to 2 characters of "ab-"',
            cases=[dict(root=r, t1=a, t2=b) for r in ('http', 'https', 'file') for a in ('http', 'file', 'relative') for b in ('https', 'relative')], stubs=STUB)
def references(S, root, t1, t2):
    n1, n2 = S.str('n1', 2, 1, 'ab-'), S.str('n2', 1, 1, 'ab-')
    S.assume(n1 != n2)
    at = {'http': 'http://h/d/', 'https': 'https://s/d/', 'file': 'file:///d/'}
    ref, want, pages, files = [], [], [], []

    def place(url, d):
        if url.startswith('file://'):
            files.append((url[len('file://'):], json.dumps(d)))
            want.append(url[len('file://'):])
        else:
            pages.append((url, enc(d)))
            want.append(url)
    for i, (t, n) in enumerate(((t1, n1), (t2, n2))):
        place(at[t if t != 'relative' else root] + n + '.json', {'definitions': {'A': {'type': 'integer', 'maximum': i}}})
        ref.append((at[t] if t != 'relative' else '') + n + '.json#/definitions/A')
    rd = titled('root', definitions={'X': {'$ref': ref[0]}, 'Y': {'$ref': ref[1]}})
    place(at[root] + 'root.json', rd)
    S.assume(not S.any(n1 == 'root', n2 == 'root'))
    web = Web(S, pages, files)
    e, a = S.fn_raises(Exception, App.create, at[root] + 'root.json')
    S.check(e is None, 'a referenced document is not found')
    S.observe('log', web.log)
    S.check(len(web.log) == 3 and S.same(web.log[0], want[2]), 'the description is not fetched first')
    S.check(S.same(sorted(web.log), sorted(want)), 'documents are fetched from elsewhere, or more than once')
    S.check(web.closed == 3, 'something is left open')
    for n, k in (('X', 0), ('Y', 1)):
        s = a.resolve('#/definitions/' + n)
        from pyswagger.utils import deref
        S.check(deref(s).maximum == k, 'a reference leads to another document')


@obligation('choice', bounds='a getter class or object given when loading, or as default of the resolver, or both; for http URLs with names of up to 2 characters; for file URLs the local getter replaces the default',
            cases=[dict(scheme=s, given=g, default=d) for s in ('http', 'file') for g in (None, 'class', 'object', 'simple') for d in (None, 'class', 'object')], stubs=STUB)
def choice(S, scheme, given, default):
    n = S.str('n', 2, 1, 'ab-')
    url = ('http://h/d/' if scheme == 'http' else 'file:///d/') + n + '.json'
    path = '/d/' + n + '.json'
    log = []

    def make(name):
        class G(Getter):
            def __init__(self, u):
                super(G, self).__init__(u)
                self.urls = [u]

            def load(self, u):
                log.append((name, u))
                return titled(name)
        return G
    web = Web(S, [(url, enc(titled('web')))], [(path, json.dumps(titled('file')))])
    k, own = {}, url
    if given == 'class':
        k['getter'] = make('given')
    elif given == 'object':
        own = 'elsewhere:' + n
        k['getter'] = make('given')(own)
    elif given == 'simple':
        def fetch(u):
            log.append(('given', u))
            return json.dumps(titled('given'))

        class Mine(SimpleGetter):
            __simple_getter_callback__ = fetch
        k['getter'] = Mine
    if default:
        other = url
        g = make('default')
        if default == 'object':
            other = 'other:' + n
            g = g(other)
        k['resolver'] = Resolver(default_getter=g)
    a = App.load(url, **k)
    if given:
        who, want = 'given', [('given', own)]
    elif default and scheme == 'http':
        who, want = 'default', [('default', other)]
    else:
        who, want = ('web' if scheme == 'http' else 'file'), []
    S.observe('log', log)
    S.check(S.same(log, want), 'another getter is asked, or for something else')
    S.check(S.same(web.log, [] if want else [url if scheme == 'http' else path]), 'something else is opened')
    S.check(a.raw.info.title == who, 'the description of another getter is used')


@obligation('memory', bounds='DictGetter as documented for Swagger 1.2: up to 2 resources with names of up to 2 characters, in the order of the list; dicts, texts or bytes; the App is loaded with an URL or with an empty one',
            cases=[dict(kind=k, n=n, url=u) for k in ('dict', 'text', 'bytes') for n in (1, 2) for u in ('', 'http://h.x', 'http://h.x/list.json')])
def memory(S, kind, n, url):
    names = [S.str('r%d' % i, 2 if n == 1 else 1, 1, 'aZ-_') for i in range(n)]
    S.assume(n == 1 or names[0] != names[1])
    conv = {'dict': lambda d: d, 'text': json.dumps, 'bytes': enc}[kind]
    lst = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/' + x} for x in names], 'info': {'title': 't', 'description': 'd'}}
    p = {'': conv(lst)}
    m = [S.int('m%d' % i, 0, 9) for i in range(n)]
    for i, x in enumerate(names):
        p[x + '.json'] = conv(res12([('/p%d' % i, [op12('op%d' % i)])], base='http://svc.x/v%d' % i))
    g = DictGetter([''] + [x + '.json' for x in names], p)
    e, a = S.fn_raises(Exception, App.load, url, resolver=Resolver(default_getter=g))
    S.check(e is None, 'a resource is not taken from the getter', known=('documented-empty-url', url == ''))
    if e is not None:
        return
    a.prepare()
    for i, x in enumerate(names):
        S.check(a.op[x, 'op%d' % i].path == '/v%d/p%d' % (i, i), 'a resource is taken for another one')
    S.check(g.urls == [], 'not everything is loaded')


@obligation('schemes', bounds='URLs of any scheme with up to 2 letters "swx" (and some common ones) that a getter knows; a description with and without own schemes')
def schemes(S):
    scheme = S.choice('known', ['http', 'https', 'ws', 'wss', 'file', None]) or 'c' + S.str('s', 2, 1, 'swx')
    own = S.choice('own', [None, [], ['https', 'http']])
    url = scheme + '://h/x'
    d = doc({'/p': {'get': {'operationId': 'theOp', 'responses': {}}}})
    d.pop('schemes', None)
    if own is not None:
        d['schemes'] = own

    class G(Getter):
        def __init__(self, u):
            super(G, self).__init__(u)
            self.urls = [u]

        def load(self, u):
            return d
    a = App.load(url, getter=G)
    a.prepare()
    S.check(S.same(list(a.schemes), own or [scheme]), 'the schemes are other ones')
    S.check(S.same(list(a.op['theOp']()[0].schemes), own or [scheme]), 'the operation has other schemes')


@obligation('refused', bounds='what a getter gives: a byte that is no UTF-8, texts and bytes of up to 3 characters of \'{"a:1}[\', numbers, lists, nothing, empty dicts; versions of up to 3 characters of ".123"',
            cases=[dict(what=w) for w in ('text', 'bytes', 'utf8', 'number', 'list', 'none', 'empty', 'version2', 'version1')])
def refused(S, what):
    ok = False
    if what in ('text', 'bytes'):
        data = '{' + S.str('t', 2, 0, '"a:1}[')
        if what == 'bytes':
            data = data.encode('ascii')
    elif what == 'utf8':
        # a byte that is no character in UTF-8
        b = S.bytes('b', 1, 1)
        S.assume(b[0] >= 128)
        d = enc(titled('XX')).split(b'XX')
        data = d[0] + b + d[1]
    elif what == 'number':
        data = S.int('v', -9, 9)
    elif what in ('list', 'none', 'empty'):
        data = {'list': [titled('a')], 'none': None, 'empty': {}}[what]
    else:
        v = S.str('v', 3, 0, '.123')
        data = titled('a') if what == 'version2' else {'swaggerVersion': '', 'apiVersion': '1', 'apis': []}
        data['swagger' if what == 'version2' else 'swaggerVersion'] = v
        ok = S.any(v == '2.0', v == '1.2')

    class G(Getter):
        def __init__(self, u):
            super(G, self).__init__(u)
            self.urls = [u]

        def load(self, u):
            return data
    e, a = S.fn_raises(Exception, App.load, 'http://h/x', getter=G)
    S.observe('e', type(e).__name__)
    S.check(S.iff(e is None, ok), 'something that is no description is accepted, or a description refused')
    if what.startswith('version') and e is not None:
        S.check(isinstance(e, NotImplementedError), 'an unknown version is not reported as such')


@obligation('url_form', bounds='paths (relative or absolute) of up to 3 characters of "ab/." + ".json" (no hidden files), also below ../, ./ and c/../, or an URL without scheme: what is loaded for relative paths is below the current folder',
            cases=[dict(n=1), dict(n=2), dict(n=3)], stubs=STUB)
def url_form(S, n):
    p = (S.choice('up', ['', '../', './', 'c/../']) if n == 1 else '') + S.str('p', n, n, 'ab/.') + '.json'
    S.assume(not p.split('/')[-1].startswith('.'))
    path = os.path.abspath(p)
    web = Web(S, [], [(path, json.dumps(titled('file')))])
    e, a = S.fn_raises(ValueError, App.load, p)
    if p.startswith('//') and not p.startswith('///'):
        S.check(e is not None and web.log == [], 'an URL without scheme is taken for a file')
        return
    S.check(e is None and S.same(web.log, [path]), 'another file is opened')
    S.check(S.same(a.url, 'file://' + path), 'the App has another URL')
