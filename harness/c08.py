"""C08 byte, binary and uuid values"""
import base64
import json
import uuid
from symx.api import obligation
from pyswagger.primitives.comm import PrimJSONEncoder
from harness.util import produce, op_app

HEX = [(48, 57), (97, 102), (65, 70)]


@obligation('bytes', bounds='every content of up to 7 bytes, formats byte and binary, alone, as property, as item',
            cases=[dict(fmt=f, where=w) for f in ('byte', 'binary') for w in ('alone', 'prop', 'items', 'addp', 'param')])
def content(S, fmt, where):
    n = S.choice('n', [0, 1, 2, 3, 4, 7])
    b = S.bytes('b', n, n)
    f = {'type': 'string', 'format': fmt}
    if where == 'prop':
        r = produce({'type': 'object', 'properties': {'x': f}}, {'x': b})['x']
    elif where == 'items':
        r = produce({'type': 'array', 'items': f}, [b'', b])[1]
    elif where == 'addp':
        r = produce({'type': 'object', 'additionalProperties': f}, {'x': b})['x']
    else:
        r = produce(f, b, kind='param' if where == 'param' else 'schema')
    t = r.to_json()
    S.check(S.same(r.v, b), 'the content is changed')
    S.check(isinstance(t, str), 'the JSON form is no text')
    S.check(S.same(base64.urlsafe_b64decode(t), b), 'the JSON form does not decode to the content')
    S.check(S.all('+' not in t, '/' not in t), 'the JSON form is not URL-safe')
    S.check(len(t) == (n + 2) // 3 * 4, 'the JSON form is not padded base64')
    S.observe('t', t)


@obligation('text', bounds='every text of one character (any Unicode that UTF-8 can encode), of 2 below U+0800, of 3 ASCII: content is its UTF-8 form, its plain form is the text',
            cases=[dict(fmt=f, n=n, top=t) for f in ('byte', 'binary') for n, t in ((0, 0x7f), (1, 0x10ffff), (2, 0x7ff), (3, 0x7f))],
            thorough=[dict(fmt=f, n=n, top=t) for f in ('byte', 'binary') for n, t in ((1, 0x10ffff), (2, 0xffff), (2, 0x10ffff), (3, 0x7ff), (4, 0x7f))])
def text(S, fmt, n, top):
    t = S.str('t', n, n, [(0, min(top, 0xd7ff))] + ([(0xe000, top)] if top > 0xe000 else []))
    r = produce({'type': 'string', 'format': fmt}, t)
    S.check(S.same(base64.urlsafe_b64decode(r.to_json()), t.encode('utf-8')), 'the JSON form does not decode to the text')
    S.check(S.same(str(r), t), 'the plain form is another text')


@obligation('not-bytes', bounds='integers, lists and mappings given for byte or binary are rejected')
def notbytes(S):
    v = S.choice('kind', ['int', 'list', 'dict', 'float'])
    v = {'int': S.int('i', -5, 300), 'list': [1, 2], 'dict': {'a': 1}, 'float': 1.5}[v]
    e, r = S.fn_raises(ValueError, produce, {'type': 'string', 'format': S.choice('fmt', ['byte', 'binary'])}, v)
    S.check(e is not None, 'a value that is neither bytes nor text is accepted')


@obligation('json', bounds='a JSON body with a byte property of up to 3 bytes and a uuid')
def injson(S):
    n = S.choice('n', [0, 1, 2, 3])
    b = S.bytes('b', n, n)
    u = '12345678-1234-5678-1234-567812345678'
    a = op_app([{'name': 'body', 'in': 'body', 'schema': {'type': 'object', 'properties': {
        'x': {'type': 'string', 'format': 'byte'}, 'u': {'type': 'string', 'format': 'uuid'}}}}], method='post')
    req, _ = a.op['theOp'](body={'x': b, 'u': u})
    req.prepare()
    d = json.loads(req.data)
    S.check(sorted(d) == ['u', 'x'], 'properties are lost or invented')
    S.check(S.same(base64.urlsafe_b64decode(d['x']), b), 'the sent text does not decode to the content')
    S.check(S.same(d['u'], u), 'the sent uuid is another one')


FORMS = ['canonical', 'hex', 'braces', 'urn']


@obligation('uuid', bounds='all 2^128 uuids as 32 hex digits of any case in canonical, plain, braces and urn form; as 16 bytes; as UUID object',
            cases=[dict(form=f) for f in FORMS + ['bytes', 'object']])
def uuids(S, form):
    d = {'type': 'string', 'format': 'uuid'}
    if form in FORMS:
        h = S.str('h', 32, 32, HEX)
        c = '-'.join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
        r = produce(d, {'canonical': c, 'hex': h, 'braces': '{' + c + '}', 'urn': 'urn:uuid:' + c}[form])
        want = c.lower()
        S.check(S.same(r.v.int, int(h, 16)), 'the uuid has other bits')
    elif form == 'bytes':
        b = S.bytes('b', 16, 16)
        r = produce(d, b)
        S.check(S.same(r.v.bytes, b), 'the uuid has other bits')
        want = str(uuid.UUID(bytes=b))
    else:
        i = S.int('i', 0, 2 ** 128 - 1)
        r = produce(d, uuid.UUID(int=i))
        S.check(S.same(r.v.int, i), 'the uuid has other bits')
        want = str(uuid.UUID(int=i))
    S.check(S.same(str(r), want), 'the uuid is not sent in canonical form')
    S.check(S.same(r.to_json(), want), 'the JSON form is not the canonical form')


@obligation('not-uuid', bounds='hex texts of 15, 16, 17, 31, 33 digits; a 32 digit text with one character that is no hex digit; 0, 15 and 17 bytes; integers, lists')
def notuuid(S):
    kind = S.choice('kind', ['len', 'char', 'bytes', 'int', 'list'])
    if kind == 'len':
        n = S.choice('n', [0, 1, 15, 16, 17, 31, 33])
        v = S.str('h', n, n, HEX)
    elif kind == 'char':
        c = S.str('c', 1, 1, [(103, 122), (71, 90), (33, 42), (46, 47)])
        i = S.choice('i', [0, 7, 31])
        v = '0' * i + c + '0' * (31 - i)
    elif kind == 'bytes':
        n = S.choice('nb', [0, 1, 15, 17, 32])
        v = S.bytes('b', n, n)
    elif kind == 'int':
        v = S.int('i', 0, 2 ** 128 - 1)
    else:
        v = [S.int('i', 0, 255)]
    e, r = S.fn_raises(Exception, produce, {'type': 'string', 'format': 'uuid'}, v)
    S.check(e is not None, 'something that is no uuid is accepted')
