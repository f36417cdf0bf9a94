"""Swagger 1.2 descriptions"""
from harness.util import load as load_

ROOT = 'http://h.x/api/api-docs.json'
DIR = 'http://h.x/api/'
SEP = '!##!'


def op12(nickname='theOp', method='GET', params=(), **k):
    d = {'method': method, 'nickname': nickname, 'type': 'void', 'parameters': list(params)}
    d.update(k)
    return d


def res12(apis, base='http://svc.x/v1', **k):
    d = {'swaggerVersion': '1.2', 'basePath': base, 'resourcePath': '/x', 'apis': [{'path': p, 'operations': ops} for p, ops in apis]}
    d.update(k)
    return d


def docs12(resources, **k):
    root = {'swaggerVersion': '1.2', 'apiVersion': '1.0', 'apis': [{'path': '/' + n} for n in resources], 'info': {'title': 't', 'description': 'd'}}
    root.update(k)
    root = dict((n, v) for n, v in root.items() if v is not None)
    d = {ROOT: root}
    for n, r in resources.items():
        d[DIR + n] = r
    return d


def app12(d, strict=True, **k):
    a = load_(d, ROOT, **k)
    a.prepare(strict=strict)
    return a
