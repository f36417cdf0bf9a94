"""C29 MIME codecs"""
import json
from symx.api import obligation
from pyswagger import errs
from pyswagger.primitives import MimeCodec
from harness.util import op_app

MIME = 'aA/+'
BUILTIN = ['application/json', 'text/json', 'text/plain']


class Mark(object):
    """a codec that tells it was used"""
    def __init__(self, tag):
        self.tag = tag
        self.seen = []

    def marshal(self, value, **kwargs):
        self.seen.append((value, kwargs))
        return ('out', self.tag, value)

    def unmarshal(self, data, **kwargs):
        self.seen.append((data, kwargs))
        return ('in', self.tag, data)


def lookup(S, mc, mime):
    """the codec that encodes, None when the media type is refused"""
    e, r = S.fn_raises(Exception, lambda: mc.marshal(mime, '1'))
    e2, r2 = S.fn_raises(Exception, lambda: mc.unmarshal(mime, '1'))
    S.check((e is None) == (e2 is None), 'encoding and decoding disagree about a media type')
    if e is not None:
        return None
    if isinstance(r, tuple):
        S.check(isinstance(r2, tuple) and r2[1] == r[1], 'encoding and decoding use different codecs')
        return r[1]
    return 'builtin'


@obligation('found', bounds='media types of 1 to 3 characters of "aA/+" in any capitalisation, surrounded by up to one space and followed by ";" and up to 2 characters of any kind')
def found(S):
    m = S.str('m', 3, 1, MIME)
    mc = MimeCodec()
    mc.register(m, Mark('x'))
    ask = S.choice('case', [lambda t: t, lambda t: t.lower(), lambda t: t.upper()])(m)
    ask = S.choice('before', ['', ' ']) + ask + S.choice('after', ['', ' ', '\t'])
    if S.choice('params', [False, True]):
        ask = ask + ';' + S.str('rest', 2)
    S.check(lookup(S, mc, ask) == 'x', 'the registered codec is not used')


@obligation('others', bounds='two registries, one or two registrations of media types of 1 to 2 characters, one of them perhaps removed, another media type of 1 to 2 characters and the built-in ones looked up')
def others(S):
    a = S.str('a', 2, 1, MIME)
    b = S.str('b', 2, 1, MIME)
    ask = S.str('ask', 2, 1, MIME)
    mc, other = MimeCodec(), MimeCodec()
    mc.register(a, Mark('a'))
    mc.register(b, Mark('b'))
    removed = S.choice('removed', [False, True])
    same = a.lower() == b.lower()
    if removed:
        mc.unregister(a)
    got = lookup(S, mc, ask)
    is_a, is_b = ask.lower() == a.lower(), ask.lower() == b.lower()
    if is_b:
        S.check(got == (None if removed and same else 'b'), 'another codec than the last registered one')
    elif is_a:
        S.check(got == (None if removed else 'a'), 'another codec than the registered one')
    else:
        S.check(got is None, 'a codec of another media type is used')
    S.check(lookup(S, other, ask) is None, 'another registry is affected')
    S.check(lookup(S, MimeCodec(), a) is None, 'a new registry is affected')
    for m in BUILTIN:
        S.check(lookup(S, mc, m) == 'builtin' and lookup(S, other, m.upper()) == 'builtin', 'a built-in codec is lost')


@obligation('changed', bounds='a media type of 1 or 2 characters or a built-in one, asked for in any of three spellings (as it is, with blanks and parameters, in capitals), before and after its codec was registered, replaced and removed')
def changed(S):
    m = S.choice('builtin', BUILTIN + [None])
    own = m is None
    if own:
        m = S.str('m', 2, 1, MIME)
    ask = S.choice('spelling', [lambda t: t, lambda t: ' ' + t + ' ; charset=x', lambda t: t.upper()])(m)
    mc = MimeCodec()
    S.check(lookup(S, mc, ask) == (None if own else 'builtin'), 'another codec than the registered one')
    for k in ('a', 'b'):
        mc.register(m, Mark(k))
        S.check(lookup(S, mc, ask) == k, 'another codec than the last registered one')
    mc.unregister(m)
    S.check(lookup(S, mc, ask) is None, 'a removed codec is used')
    S.check(lookup(S, MimeCodec(), ask) == (None if own else 'builtin'), 'a new registry is affected')
    mc.register(m, Mark('c'))
    S.check(lookup(S, mc, ask) == 'c', 'another codec than the last registered one')


@obligation('unknown', bounds='media types that differ from a built-in one in one character, are a part of it or longer, or have another suffix; any character below U+0180 except U+0130',
            cases=[dict(m=m) for m in BUILTIN])
def unknown(S, m):
    c = S.str('c', 1, 1, [(0, 0x12f), (0x131, 0x17f)])
    how = S.choice('how', ['append', 'prepend', 'replace-last', 'replace-slash', 'cut', 'suffix'])
    t = {'append': lambda: m + c, 'prepend': lambda: c + m, 'replace-last': lambda: m[:-1] + c, 'replace-slash': lambda: m.replace('/', '/' + c),
         'cut': lambda: m[:S.choice('n', [3, 4, 5])], 'suffix': lambda: 'application/x+' + m.split('/')[1]}[how]()
    # what is still the same media type
    norm = t.split(';')[0].strip().lower()
    S.assume(S.all(*[norm != b for b in BUILTIN]))
    S.check(lookup(S, MimeCodec(), t) is None, 'an unregistered media type is not refused')


@obligation('json', thorough=[dict(leaf='any', shape='leaf')], bounds='texts of one character below U+0250 or up to 2 ASCII characters, integers of up to 64 bits, floats in eighths -2..2, booleans, null, lists and objects of them up to three levels; decoded from text and from UTF-8 bytes',
            cases=[dict(leaf=l, shape=s) for l in ('str', 'int', 'float', 'bool', 'null') for s in ('leaf', 'list', 'deep')])
def js(S, leaf, shape):
    v = {'any': lambda: S.str('v', 1), 'str': lambda: S.str('v', 1, 0, [(0, 0x24f)]) if shape == 'leaf' else S.str('v', 2, 0, [(0, 127)]), 'int': lambda: S.int('v', -2 ** 63, 2 ** 63 - 1) if shape == 'leaf' else S.int('v', -99, 99),
         'float': lambda: S.float('v', 3, -2, 2), 'bool': lambda: S.bool('v'), 'null': lambda: None}[leaf]()
    x = {'leaf': lambda: v, 'list': lambda: [v, 'x', v], 'deep': lambda: {'a': [{'b': v}, None, []], 'c': {'d': v}, '': v}}[shape]()
    mime = S.choice('mime', ['application/json', 'text/json', 'Application/JSON; charset=utf-8']) if leaf not in ('any', 'str') else 'application/json'
    mc = MimeCodec()
    text = mc.marshal(mime, x)
    if S.choice('bytes', [False, True]):
        text = text.encode('utf-8')
    back = mc.unmarshal(mime, text)

    def same(p, q):
        if isinstance(p, dict):
            return isinstance(q, dict) and sorted(p) == sorted(q) and S.all(*[same(p[k], q[k]) for k in p])
        if isinstance(p, list):
            return isinstance(q, list) and len(p) == len(q) and S.all(*[same(i, j) for i, j in zip(p, q)])
        if p is None:
            return q is None
        return S.same(p, q)
    S.check(same(x, back), 'the value is changed')


@obligation('plain', bounds='texts and bytes of up to 3 characters pass text/plain unchanged')
def plain(S):
    v = S.str('v', 3) if S.choice('text', [True, False]) else S.bytes('b', 3)
    mc = MimeCodec()
    S.check(S.all(S.same(mc.marshal('text/plain', v), v), S.same(mc.unmarshal('text/plain; charset=x', v), v)), 'the value is changed')


@obligation('operation', bounds='request bodies and responses of an operation: own codec, built-in and unregistered media types, with parameters and any capitalisation; two descriptions, one of them with the own codec',
            cases=[dict(side=s) for s in ('request', 'response')])
def operation(S, side):
    v = S.str('v', 2 if side == 'request' else 1, 0, [(32, 126)])
    mime = S.choice('mime', ['x/own', 'application/json', 'application/xml', 'application/vnd.api+json'])
    schema = {'type': 'string'} if S.choice('format', [False, True]) else {'type': 'string', 'format': 'password'}
    a = op_app([{'name': 'b', 'in': 'body', 'required': True, 'schema': schema}], method='post', consumes=[mime], produces=[mime],
               responses={'200': {'description': 'ok', 'schema': schema}})
    b = op_app([{'name': 'b', 'in': 'body', 'required': True, 'schema': schema}], method='post', consumes=[mime], produces=[mime],
               responses={'200': {'description': 'ok', 'schema': schema}})
    mark = Mark('own')
    a.mime_codec.register('X/Own', mark)
    for app, has in ((a, True), (b, False)):
        req, resp = app.op['theOp'](b=v)
        if side == 'request':
            e, _ = S.fn_raises(Exception, lambda: req.prepare(scheme='http'))
            if mime == 'application/json':
                S.check(e is None and S.same(json.loads(req.data), v) and req.header['Content-Type'] == mime, 'another body')
            elif mime == 'x/own' and has:
                S.check(e is None and req.data[1] == 'own' and S.same(req.data[2], v), 'the own codec is not used')
                kw = mark.seen[-1][1]
                S.check(kw.get('_type') == 'string' and kw.get('_format') == schema.get('format'), 'the codec does not learn the type')
            else:
                S.check(e is not None, 'a media type without codec is not refused')
        else:
            ct = S.choice('spelling-%s' % has, [mime, mime.upper() + '; charset=utf-8'])
            raw = json.dumps(v) if mime == 'application/json' else v
            e, _ = S.fn_raises(Exception, lambda: resp.apply_with(status=200, header={'Content-Type': ct}, raw=raw))
            if mime == 'application/json':
                S.check(e is None and S.same(resp.data, v), 'another value')
            elif mime == 'x/own' and has:
                S.check(len(mark.seen) == 1 and S.same(mark.seen[0][0], v), 'the own codec is not used')
            else:
                S.check(e is not None and resp.data is None, 'a media type without codec is not refused')
