"""helpers shared by the harnesses (run both symbolically and on the real code)"""
from pyswagger import App
from pyswagger.resolve import Resolver
from pyswagger.getter import Getter
from pyswagger.spec.v2_0 import parser, objects
from pyswagger.primitives import Primitive

URL = 'http://h.x/api/swagger.json'


def parse(ctx_cls, d):
    tmp = {'x': None}
    with ctx_cls(tmp, 'x') as ctx:
        ctx.parse(d)
    return tmp['x']


def schema(d):
    return parse(parser.SchemaContext, d)


def param(d):
    return parse(parser.ParameterContext, d)


def items(d):
    return parse(parser.ItemsContext, d)


def produce(d, v, ctx=None, kind='schema'):
    """convert v by the given definition"""
    if ctx is not None:
        ctx = dict(ctx)
    obj = schema(d) if kind == 'schema' else param(dict(d, name='p', **{'in': 'query'}))
    return Primitive().produce(obj, v, ctx)


def getter(docs, log):
    class MemGetter(Getter):
        def __init__(self, url):
            super(MemGetter, self).__init__(url)
            self.urls = [url]

        def load(self, url):
            log.append(url)
            if url not in docs:
                raise IOError('no such document: ' + url)
            return docs[url]
    return MemGetter


def load(docs, url=URL, log=None, **k):
    """an App loaded from a mapping url -> document (or from one document)"""
    if 'swagger' in docs or 'swaggerVersion' in docs:
        docs = {url: docs}
    log = [] if log is None else log
    return App.load(url, resolver=Resolver(default_getter=getter(docs, log)), **k)


def app(docs, url=URL, log=None, strict=True, **k):
    a = load(docs, url, log, **k)
    a.prepare(strict=strict)
    return a


def doc(paths, **k):
    d = {'swagger': '2.0', 'info': {'version': '1', 'title': 't'}, 'host': 'h.x', 'basePath': '/b',
         'paths': paths}
    d.update(k)
    return d


def op_doc(params=None, path='/p', method='get', top=None, **op):
    o = {'operationId': 'theOp', 'responses': {'200': {'description': 'ok'}}}
    if params is not None:
        o['parameters'] = params
    o.update(op)
    return doc({path: {method: o}}, **(top or {}))


def op_app(params=None, path='/p', method='get', top=None, **op):
    return app(op_doc(params, path, method, top, **op))
