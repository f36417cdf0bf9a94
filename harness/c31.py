"""C31 local files are located exactly where the given path says"""
import codecs
import io
import json
import os
from symx.api import obligation
from pyswagger import App, getter as getter_mod
from pyswagger.resolve import Resolver
from pyswagger.getter import LocalGetter, DictGetter, Getter
from pyswagger.utils import patch_path, url_dirname
from harness.util import doc

CHARS = 'ajn.y %#?;\u00e9+'
NAMES = ['resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml']
EXTS = ['.json', '.yaml', '.yml']
STUBS = 'open() and os.path.isfile() answer from a table of files'


class File(object):
    def __init__(self, text):
        self.text = text

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read(self, *a):
        return self.text

    def close(self):
        pass


def filesystem(S, files):
    """files: list of (path, text); returns the list of paths opened"""
    log = []

    def isfile(p):
        return any(p == f for f, _ in files)

    def open_(p, *a, **k):
        log.append(p)
        for f, text in files:
            if p == f:
                return File(text)
        raise IOError('no such file')
    S.patch(os.path, 'isfile', isfile)
    S.patch(getter_mod, 'open', open_)
    S.patch(io, 'open', open_)
    S.patch(codecs, 'open', open_)
    return log


def text(title, **k):
    d = doc({}, **k)
    d['info']['title'] = title
    return json.dumps(d)


def segment(S, name, n, chars=CHARS):
    s = S.str(name, n, n, chars)
    S.assume(not s == '.' and not s == '..')
    return s


FILES = ['swagger.json', 'swagger.yaml', 'swagger.yml', 'api.json', 'api.yaml', 'a.yml', 'my swagger.json', 'a.b.json']


@obligation('file', bounds='folder names of 1 to 3 characters of "ajn.y %#?;\u00e9+", eight file names, given as path or as file: URL',
            cases=[dict(n=n, name=name, form=form) for n in (1, 2) for name in FILES for form in ('path', 'url')]
            + [dict(n=3, name=name, form='path') for name in FILES[:1]],
            thorough=[dict(n=3, name=name, form='path') for name in FILES[1:]], stubs=STUBS)
def file_(S, n, name, form):
    d = segment(S, 'dir', n)
    path = '/' + d + '/' + name
    # files nearby which must not be opened instead
    files = [(path + e, text('wrong')) for e in EXTS] + [('/' + d + '/other.json', text('wrong')), (path, text('right'))]
    log = filesystem(S, files)
    url = path
    if form == 'url':
        url = 'file://' + quote(path)
    e, app = S.fn_raises(Exception, App.load, url)
    S.check(not e, 'a file with one of the known extensions is not loaded')
    S.observe('opened', log)
    S.check(len(log) == 1 and log[0] == path, 'another file than the one named is opened')
    S.check(app.raw.info.title == 'right', 'the content of another file is loaded')


def quote(s):
    return ''.join({' ': '%20', '%': '%25', '#': '%23', '?': '%3F', ';': '%3B', '\u00e9': '%C3%A9'}.get(c, c) for c in s)


@obligation('extension', bounds='file names of up to 5 characters of "a.jsony" + one of ten endings in a folder with up to 1 character; no predefined file',
            cases=[dict(n=n, ending=e) for n in (1, 2) for e in ('.json', '.yaml', '.yml', '.geojson', '.xyml', 'json', '.JSON', '.txt', '', '.json.bak')],
            thorough=[dict(n=3, ending=e) for e in ('.json', '.geojson', 'json', '')], stubs=STUBS)
def extension(S, n, ending):
    name = segment(S, 'name', n, 'ajs.') + ending
    S.assume(not name.startswith('.') and not name.endswith('.'))
    path = '/d/' + name
    have = [S.bool('have' + e) for e in EXTS]
    files = [(path, text('itself'))] + [(path + e, text(e)) for e, h in zip(EXTS, have) if h]
    log = filesystem(S, files)
    e, app = S.fn_raises(Exception, App.load, path)
    S.observe('opened', log)
    if any(name.endswith(x) for x in EXTS):
        want = path
    else:
        want = None
        for x, h in zip(EXTS, have):
            if h:
                want = path + x
                break
    if want is None:
        S.reach('nothing')
        S.check(e and not log, 'without a file with a known extension, something else is opened')
    else:
        S.reach('found')
        S.check(not e, 'the file is not loaded')
        S.check(len(log) == 1 and log[0] == want, 'another file than the expected one is opened')


@obligation('folder', bounds='folder names of up to 3 characters of "ajn.y %#?;\u00e9+" also ending with a known extension or containing a predefined name, with or without trailing slash; every set of predefined files in it',
            cases=[dict(n=1, end=end, slash=s) for end in ('', '.json', '.yml') for s in (False, True)] + [dict(n=2, end='', slash=False, chars='a.%')]
            + [dict(n=1, end=end, slash=False, chars='a.') for end in ('swagger.json.d', 'swagger.yaml~', 'resource_list.json_')],
            thorough=[dict(n=2, end=end, slash=s) for end in ('', '.yaml') for s in (False, True)] + [dict(n=3, end='', slash=False, chars='a.%')], stubs=STUBS)
def folder(S, n, end, slash, chars=CHARS):
    d = '/' + segment(S, 'dir', n, chars) + end
    have = [S.bool('have' + x) for x in NAMES]
    res = json.dumps({'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [], 'info': {'title': 'resource_list.json', 'description': 'x'}})
    files = [(d + '/' + x, res if x == NAMES[0] else text(x)) for x, h in zip(NAMES, have) if h]
    files.append((d + '/api.json', text('wrong')))
    log = filesystem(S, files)
    e, app = S.fn_raises(Exception, App.load, d + ('/' if slash else ''))
    S.observe('opened', log)
    want = [x for x, h in zip(NAMES, have) if h]
    if not want:
        # nothing in it: only a file with an extension added could be meant
        S.check(e, 'a folder without description is loaded')
        S.check(not any(p == d + '/api.json' for p in log), 'a file with another name is taken')
        return
    S.reach('found')
    S.check(not e, 'the description in the folder is not loaded')
    S.check(len(log) == 1 and log[0] == d + '/' + want[0], 'another file than the first predefined one is opened')
    S.check(app.raw.info.title == want[0], 'the content of another file is loaded')


REF = {'type': 'object', 'properties': {'a': {'type': 'string'}}}


@obligation('references', bounds='references to files beside (or below, above) the description with names of up to 2 characters of "ajn.y %;\u00e9+" given raw or percent-encoded',
            cases=[dict(n=n, form=f, where=w) for n in (1, 2) for f in ('raw', 'quoted') for w in ('', 'sub/', '../')]
            + [dict(n=1, form='quoted', where=w, dir=True) for w in ('', '../')]
            + [dict(n=1, form='raw', where='', load=l) for l in ('folder', 'folder/')], stubs=STUBS)
def references(S, n, form, where, dir=False, load=None):
    base = 'the dir' if not dir else segment(S, 'dir', 1)
    name = segment(S, 'name', n, 'aj.y ;\u00e9+' if form == 'raw' else CHARS) + '.json'
    target = '/x/' + {'': base + '/', 'sub/': base + '/sub/', '../': ''}[where] + name
    S.assume(not name.startswith('.') and not name.startswith(' '))
    ref = where + (name if form == 'raw' else quote(name))
    root = '/x/' + base + ('/swagger.json' if load else '/api.yml')
    files = [(root, text('root', definitions={'A': {'$ref': ref + '#/definitions/B'}})),
             (target, json.dumps({'definitions': {'B': REF}}))]
    log = filesystem(S, files)

    def create():
        a = App.load(root if not load else '/x/' + base + load[6:])
        a.prepare()
        return a
    e, app = S.fn_raises(Exception, create)
    S.observe('opened', log)
    S.check(not e, 'the referenced file is not found', known=('folder-references', load is not None))
    S.check(S.same(log, [root, target]), 'another file than the referenced one is opened')


@obligation('related', bounds='resource lists in files with any of the known extensions, or found in a folder; folder and resource names of up to 2 characters of "ajy.s-"; every set of existing resource files',
            cases=[dict(how=h, n=n) for h in ('/api.json', '/api.yaml', '/api.yml', '/resource_list.json', '', '/') for n in (1, 2)], stubs=STUBS)
def related(S, how, n):
    d = '/x/' + segment(S, 'dir', n, 'ajy.s-')
    S.assume(not any(d.endswith(x) for x in EXTS))
    name = segment(S, 'name', n, 'ajy.s-')
    S.assume(not name.startswith('.'))
    have = [S.bool('have' + x) for x in EXTS]
    S.assume(any(have))
    root = d + (how if len(how) > 1 else '/resource_list.json')
    lst = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/' + name}], 'info': {'title': 't', 'description': 'x'}}
    files = [(root, json.dumps(lst))]
    for x, h in zip(EXTS, have):
        if h:
            files.append((d + '/' + name + x, json.dumps({'swaggerVersion': '1.2', 'basePath': 'http://h', 'resourcePath': '/' + x, 'apis': []})))
    log = filesystem(S, files)
    e, app = S.fn_raises(Exception, App.load, d + how)
    S.observe('opened', log)
    want = [x for x, h in zip(EXTS, have) if h][0]
    S.check(not e, 'the resource beside the resource list is not loaded')
    S.check(S.same(log, [root, d + '/' + name + want]), 'another file than that of the resource is opened')
    S.check(app.raw.apis[name].resourcePath == '/' + want, 'the content of another resource is loaded')


@obligation('kinds', bounds='a description with a title of up to 2 characters as dict, text or bytes of JSON', cases=[dict(kind=k) for k in ('dict', 'text', 'bytes')])
def kinds(S, kind):
    title = S.str('title', 2, 0, 'a"\\\u00e9{')
    d = doc({})
    d['info']['title'] = title
    data = d
    if kind != 'dict':
        data = json.dumps(d)
        if kind == 'bytes':
            data = data.encode('utf-8')
    app = App.load('http://h/x', getter=DictGetter(['http://h/x'], {'http://h/x': data}))
    S.check(app.raw.info.title == title, 'the description is altered on the way from the getter')


@obligation('hook', bounds='loading through a url_load_hook, two references of up to 2 characters of "ab/" to other documents',
            cases=[dict(n=1), dict(n=2)])
def hook(S, n):
    log = []

    class G(Getter):
        def __init__(self, url):
            super(G, self).__init__(url)
            self.urls = [url]

        def load(self, url):
            log.append(url)
            d = doc({})
            d['definitions'] = {'B': REF}
            if url == 'mem://root.json':
                d['definitions'] = {'A': {'$ref': r1 + '#/definitions/B'}, 'C': {'$ref': r2 + '#/definitions/B'}}
            return d
    r1, r2 = S.str('r1', n, n, 'ab'), S.str('r2', n, n, 'ab')

    def h(url):
        return 'mem://' + url[len('http://h/d/'):] if url.startswith('http://h/d/') else url
    a = App.load('http://h/d/root.json', resolver=Resolver(h, G))
    a.prepare()
    S.observe('loaded', log)
    want = ['mem://root.json', 'mem://' + r1] + ([] if r1 == r2 else ['mem://' + r2])
    S.check(S.same(sorted(log), sorted(want)), 'documents are not loaded once each from where the hook says')
    for name, r in (('A', r1), ('C', r2)):
        S.check(getattr(a.root.definitions[name], '$ref') == 'http://h/d/' + r + '#/definitions/B', 'the reference is not the original URL')
    e, _ = S.fn_raises(Exception, a.resolve, 'http://h/d/' + r1 + '#/definitions/Z')
    S.check(e, 'a pointer to nothing is resolved')
