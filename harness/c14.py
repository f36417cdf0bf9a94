"""C14 URL options and scheme selection"""
from urllib.parse import unquote
from symx.api import obligation
from pyswagger.core import BaseClient
from harness.util import app, op_doc, load

HOST = [(97, 98), (45, 46), (48, 49), (58, 58)]


def parts(S, url):
    """scheme, host, path of a URL"""
    s, sep, rest = url.partition('://')
    S.check(S.same(sep, '://'), 'the URL has no host')
    i = rest.find('/')
    return (s, rest, '') if i < 0 else (s, rest[:i], rest[i:])


ARG = {'name': 'arg', 'in': 'path', 'required': True, 'type': 'string'}


@obligation('patch', bounds='new host any text of 1 to 3 characters of "ab01.-:", new scheme, either or both or none, in one or two steps before and after preparation; base path and template one of five; path argument any ASCII character or up to 2 of "/?#;:@ %"',
            cases=[dict(when=w, alphabet=a, n=n) for w in ('before', 'after', 'both') for a, n in (([(0, 127)], 1), ('/?#;:@', 2))])
def patch(S, when, alphabet, n):
    b, path = S.choice('path', [('/b', '/p/{arg}'), ('/', '/{arg}'), ('/b/c', '/p;v=1/{arg}/x'), (None, '/p/{arg}/'), ('/b', '/{arg};v=1')])
    d = op_doc([ARG, {'name': 'q', 'in': 'query', 'type': 'string'}], path)
    d['host'] = S.choice('docs-host', ['h.x', 'h.x:8080'])
    if b:
        d['basePath'] = b
    else:
        del d['basePath']
    t = S.str('t', n, n, alphabet)
    args = dict(arg=t, q='http://x/y?z')
    want, _ = app(d).op['theOp'](**args)
    want.prepare(scheme='http')
    ws, wh, wp = parts(S, want.url)
    req, _ = app(d).op['theOp'](**args)
    opt = {}
    if S.choice('host', [False, True]):
        opt['url_netloc'] = wh = S.str('netloc', 3, 1, HOST)
    if S.choice('scheme', [False, True]):
        opt['url_scheme'] = ws = S.choice('s', ['https', 'ws'])
    if when == 'before':
        req._patch(opt)
    elif when == 'both':
        # the host first, the scheme after it, or the other way round
        first, second = S.choice('order', [('url_netloc', 'url_scheme'), ('url_scheme', 'url_netloc')])
        req._patch(dict((k, v) for k, v in opt.items() if k == first))
        opt = dict((k, v) for k, v in opt.items() if k == second)
    req.prepare(scheme='http')
    if when != 'before':
        req._patch(opt)
    s, h, p = parts(S, req.url)
    S.check(S.same(s, ws), 'the scheme is another one')
    S.check(S.same(h, wh), 'the host is another one')
    S.check(S.same(p, wp), 'the path of the URL is changed')
    S.check(S.same(req.path, want.path), 'the path is changed')
    S.check(req.query == [('q', 'http://x/y?z')], 'the query is changed')
    req.reset()
    req.prepare(scheme='http')
    S.check(S.same(req.url, want.url), 'a patch outlives the reset')


NAMES = ['http', 'https', 'ws']


def subset(S, tag):
    return [n for n in NAMES if S.choice(tag + n, [False, True])]


@obligation('select', bounds='every subset of three schemes for the client, for the operation and for the document, any preference or none, or one that is withdrawn',
            cases=[dict(level=l, pref=p) for l in ('op', 'doc') for p in (None, 'http', 'https', 'ws', 'ftp', 'withdrawn')])
def select(S, level, pref):
    mine = subset(S, 'client-')

    class Client(BaseClient):
        __schemes__ = set(mine)
    theirs = subset(S, level + '-')
    if level == 'op':
        d = op_doc([], schemes=theirs, top={'schemes': ['ws']})
    else:
        d = op_doc([], top={'schemes': theirs})
    req, _ = app(d).op['theOp']()
    if not theirs:
        theirs = ['ws'] if level == 'op' else ['http']       # of the URL the document is loaded from
    both = [s for s in mine if s in theirs]
    if pref == 'withdrawn':
        req.scheme = 'http'
        pref = req.scheme = None
        S.check(req.scheme is None, 'the preference is kept')
    if pref:
        req.scheme = pref
        S.check(req.scheme == pref, 'the preference is not kept')
    e, _ = S.fn_raises(Exception, lambda: req.prepare(scheme=Client().prepare_schemes(req)))
    ok = both and (pref is None or pref in both)
    S.check((e is None) == bool(ok), 'no common scheme, but the request is prepared' if e is None else 'a common scheme is refused')
    if e is None:
        s, h, p = parts(S, req.url)
        S.check(s in both, 'the scheme is not common to client and operation')
        S.check(pref is None or s == pref, 'the preferred scheme is not used')
        S.check(h == 'h.x' and p == '/b/p', 'the rest of the URL is changed')


@obligation('text', bounds='a scheme given to prepare as text: any of 1 to 3 letters; a value that is neither text nor list')
def text(S):
    req, _ = app(op_doc([ARG], '/p/{arg}')).op['theOp'](arg='x')
    v = S.choice('kind', ['text', 'int', 'none', 'dict', 'tuple'])
    if v == 'text':
        t = S.str('t', 3, 1, 'abz')
        req.prepare(scheme=t)
        s, h, p = parts(S, req.url)
        S.check(S.same(s, t), 'the scheme is another one')
        S.check(h == 'h.x' and p == '/b/p/x', 'the rest of the URL is changed')
    else:
        e, _ = S.fn_raises(ValueError, lambda: req.prepare(scheme={'int': 1, 'none': None, 'dict': {'a': 1}, 'tuple': ('http',)}[v]))
        S.check(e is not None, 'a scheme that is no text is accepted')


@obligation('default-scheme', bounds='documents without schemes, loaded from http, https and other URLs; the host of the loading URL when no host is declared')
def dscheme(S):
    url = S.choice('url', ['http://a.b/x/swagger.json', 'https://a.b:81/swagger.json', 'ws://c/swagger.json'])
    d = op_doc([])
    declared = S.choice('host', [False, True])
    if not declared:
        del d['host']
    req, _ = app(d, url).op['theOp']()
    scheme = url.split(':')[0]
    S.check(list(req.schemes) == [scheme], 'the scheme of the loading URL is not used')
    req.prepare(scheme=list(req.schemes))
    S.check(req.url == scheme + '://' + ('h.x' if declared else url.split('/')[2]) + '/b/p', 'the URL is another one')
