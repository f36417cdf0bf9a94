"""stand-ins for the HTTP libraries: they record what they are given, read it the
way the library does, and answer with a prepared response. They replace the real
libraries in symbolic runs and in replays."""
import sys
import types
from urllib.parse import urlencode

SENT = []       # what was sent: dict(method, url, query, headers, body, form, files)
ANSWER = [None]  # (status, list of headers, body)


def reset(status, headers, body):
    del SENT[:]
    ANSWER[0] = (status, headers, body)


def check():
    if isinstance(ANSWER[0], Exception):
        raise ANSWER[0]


def text_of(body):
    return body.encode('utf-8') if isinstance(body, str) else body


# ---- requests
class Session(object):
    def prepare_request(self, rq):
        return rq

    def send(self, rq, **opt):
        assert opt.pop('stream', True) in (True, False)
        assert not opt
        form = files = body = None
        if rq.files:
            # requests: encode_files
            form = [(k, v) for k, v in (rq.data.items() if hasattr(rq.data, 'items') else rq.data or [])]
            files = []
            for name, f in rq.files:
                if len(f) == 2:
                    fn, fp = f
                    ct = None
                else:
                    fn, fp, ct = f
                files.append((name, fn, ct, text_of(fp.read())))
        elif rq.data:
            body = text_of(rq.data if isinstance(rq.data, (str, bytes)) else urlencode(rq.data, True))
        check()
        SENT.append(dict(method=rq.method, url=rq.url, query=list(rq.params), headers=list(rq.headers.items()), body=body, form=form, files=files))
        return RequestsResponse()


class Request(object):
    def __init__(self, method=None, url=None, headers=None, files=None, data=None, params=None):
        self.method, self.url, self.headers, self.files, self.data, self.params = method, url, headers or {}, files, data, params or []


class RequestsResponse(object):
    def __init__(self):
        self.status_code, headers, self.content = ANSWER[0]
        # requests gives one value per name
        self.headers = {}
        for k, v in headers:
            self.headers[k] = self.headers[k] + ', ' + v if k in self.headers else v


# ---- werkzeug and the test client of flask
class FileStorage(object):
    def __init__(self, stream=None, filename=None, name=None, content_type=None, content_length=None, headers=None):
        self.stream, self.filename, self.name, self.content_type = stream, filename, name, content_type

    def read(self):
        return text_of(self.stream.read()) if self.stream else b''


class FlaskClient(object):
    def open(self, path=None, query_string=None, method=None, headers=None, data=None):
        form = files = body = None
        if data:
            if isinstance(data, (str, bytes)):
                body = text_of(data)
            else:
                # werkzeug: _iter_data, EnvironBuilder.__init__
                form, files = [], []
                for k, vs in data.items():
                    for v in (vs if isinstance(vs, list) else [vs]):
                        if hasattr(v, 'read'):
                            assert v.name == k
                            files.append((k, v.filename, v.content_type, v.read()))
                        else:
                            form.append((k, v))
        check()
        SENT.append(dict(method=method, url=path, query=list(query_string or []), headers=list(headers), body=body, form=form, files=files))
        return FlaskResponse()


class Pairs(object):
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return iter(self.pairs)

    def get_all(self):
        return iter(self.pairs)

    def __iter__(self):
        return iter(self.pairs)

    def getlist(self, name):
        return [v for k, v in self.pairs if k.lower() == name.lower()]

    get_list = getlist

    def to_wsgi_list(self):
        return list(self.pairs)


class FlaskResponse(object):
    def __init__(self):
        self.status_code, headers, self.data = ANSWER[0]
        self.headers = Pairs(headers)


# ---- tornado
class HTTPHeaders(object):
    def __init__(self):
        self.pairs = []

    def add(self, name, value):
        self.pairs.append((name, value))

    def __setitem__(self, name, value):
        self.pairs = [(k, v) for k, v in self.pairs if k.lower() != name.lower()] + [(name, value)]

    def items(self):
        # several values of a name are joined
        d = {}
        for k, v in self.pairs:
            d[k] = d[k] + ',' + v if k in d else v
        return iter(list(d.items()))

    def get_all(self):
        return iter(self.pairs)

    def get_list(self, name):
        return [v for k, v in self.pairs if k.lower() == name.lower()]

    def __iter__(self):
        return iter([k for k, _ in self.items()])


class HTTPRequest(object):
    def __init__(self, url, method='GET', headers=None, body=None):
        self.url, self.method, self.headers, self.body = url, method, headers, body


class AsyncHTTPClient(object):
    def fetch(self, rq):
        url, query = rq.url if isinstance(rq.url, tuple) else (rq.url, [])
        check()
        SENT.append(dict(method=rq.method, url=url, query=list(query), headers=list(rq.headers.pairs),
                         body=None if rq.body is None else text_of(rq.body), form=None, files=None))
        return TornadoResponse()


class TornadoResponse(object):
    def __init__(self):
        self.code, headers, self.body = ANSWER[0]
        self.headers = HTTPHeaders()
        for k, v in headers:
            self.headers.add(k, v)


def url_concat(url, args):
    # the query is kept apart: encoding it is up to the library
    return (url, list(args or []))


class Return(Exception):
    def __init__(self, value=None):
        super(Return, self).__init__()
        self.value = value


def coroutine(fn):
    def run(*a, **k):
        g = fn(*a, **k)
        v = None
        try:
            while True:
                v = g.send(v)
        except Return as e:
            return e.value
        except StopIteration as e:
            return e.value
    return run


def install():
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__path__ = []
        for n, v in k.items():
            setattr(m, n, v)
        sys.modules[name] = m
        return m
    mod('requests', Session=Session, Request=Request)
    mod('werkzeug').datastructures = mod('werkzeug.datastructures', FileStorage=FileStorage)
    t = mod('tornado')
    t.httpclient = mod('tornado.httpclient', AsyncHTTPClient=AsyncHTTPClient, HTTPRequest=HTTPRequest)
    t.httputil = mod('tornado.httputil', url_concat=url_concat, HTTPHeaders=HTTPHeaders)
    t.gen = mod('tornado.gen', coroutine=coroutine, Return=Return)


install()
