"""C17 responses are decoded by the definition of their status"""
import json
from symx.api import obligation
from pyswagger.errs import ValidationError
from harness.util import app, op_doc

DEFS = {'200': {'description': 'a', 'schema': {'type': 'integer', 'maximum': 50}, 'headers': {'X': {'type': 'integer'}}},
        '404': {'description': 'b', 'schema': {'type': 'string', 'maxLength': 3}, 'headers': {'X': {'type': 'string'}}},
        '201': {'description': 'c'},
        'default': {'description': 'd', 'schema': {'type': 'array', 'items': {'type': 'integer'}}, 'headers': {'X': {'type': 'array', 'items': {'type': 'integer'}, 'collectionFormat': 'csv'}}}}


def response(responses, **k):
    a = app(op_doc([], responses=responses, **k))
    _, resp = a.op['theOp']()
    return resp


@obligation('status', bounds='every status code 0..999, every subset of the definitions 200, 201, 404, default (beside a definition of another name, one of 7 as "2XX" or "20"); in one or several steps',
            cases=[dict(steps=s, default=d) for s in (1, 2, 3) for d in (False, True)])
def status(S, steps, default):
    decl = [k for k in ('200', '201', '404') if S.choice('has' + k, [False, True])] + (['default'] if default else [])
    # further definitions never belong to a status, however similar
    more = S.choice('more', [None, '2XX', '4xx', '20', '0200', '2000', '*', '']) if default and steps == 1 else None
    st = S.int('status', 0, 999)
    S.assume(more != '20' or st != 20)
    used = 'default' if default else None
    for k in decl:
        if k != 'default' and st == int(k):
            used = k
    i = S.int('i', 0, 99)
    raw = {'200': str(i), '404': '"%02d"' % i if False else '"' + str(i) + '"', 'default': '[1, ' + str(i) + ']'}.get(used, '{"x": 1}')
    defs = dict((k, DEFS[k]) for k in decl)
    if more is not None:
        defs[more] = {'description': 'e', 'schema': {'type': 'object', 'required': ['nothing']}, 'headers': {'X': {'type': 'boolean'}}}
    resp = response(defs)
    h = {'X': str(i)}
    ok = used != '200' or i <= 50

    def go():
        if steps == 1:
            resp.apply_with(st, raw, h)
        elif steps == 2:
            resp.apply_with(status=st, raw=raw)
            resp.apply_with(header=h)
        else:
            resp.apply_with(status=st)
            resp.apply_with(header=list(h.items()))
            resp.apply_with(raw=raw)
    e, _ = S.fn_raises(ValidationError, go)
    S.check(S.iff(e is None, ok), 'the body is not checked by the definition of its status')
    S.check(S.same(resp.status, st), 'the status is another one')
    S.check(S.same(resp.raw, raw), 'the raw body is changed')
    if e is not None:
        return
    want = {'200': lambda: i, '404': lambda: str(i), 'default': lambda: [1, i]}.get(used, lambda: None)()
    S.check(S.same(list(resp.data) if isinstance(want, list) else resp.data, want), 'the body is decoded to something else')
    x = resp.header['X']
    S.check(len(x) == 1, 'a header is lost or doubled')
    x = x[0]
    want = {'200': lambda: i, 'default': lambda: [i]}.get(used, lambda: str(i))()
    S.check(S.same(list(x) if isinstance(want, list) else x, want), 'the header is not converted by its definition')


@obligation('headers', bounds='up to 3 headers with names of 1 or 2 characters of "aBb-", values one digit or an ASCII character, as pairs; as mapping with distinct names; declared headers "a" (integer), "B" (integer) and "ab" (list)',
            cases=[dict(n=n, kind=k) for n in (1, 2) for k in ('pairs', 'mapping')] + [dict(n=3, kind='pairs')])
def headers(S, n, kind):
    decl = {'a': {'type': 'integer'}, 'B': {'type': 'integer'}, 'ab': {'type': 'array', 'items': {'type': 'integer'}}}
    resp = response({'200': {'description': 'a', 'headers': decl}})
    pairs = [(S.str('k%d' % i, 2 if n < 3 else 1, 1, 'abB-' if n < 3 else 'abBx'), str(S.int('v%d' % i, 0, 9))) for i in range(n)]
    if kind == 'mapping':
        d = {}
        for k, v in pairs:
            d[k] = v
        pairs = list(d.items())
        resp.apply_with(200, None, d)
    elif S.choice('together', [False, True]):
        resp.apply_with(200, None, pairs)
    else:
        resp.apply_with(200)
        for k, v in pairs:
            resp.apply_with(header={k: v})
    want = {}
    for k, v in pairs:
        k = k.lower()
        v = int(v) if S.any(S.same(k, 'a'), S.same(k, 'b')) else [int(v)] if k == 'ab' else v
        if k in want:
            want[k].append(v)
        else:
            want[k] = [v]
    S.check(len(resp.header) == len(want), 'headers are lost or invented')
    for k, l in want.items():
        got = [list(x) if isinstance(x, list) else x for x in resp.header[k.upper()]]
        S.check(S.same(got, l), 'a header has other values')


@obligation('codec', bounds='Content-Type one of 8 spellings with or without parameters, under 3 spellings of the header name or absent; body of up to 2 ASCII characters, as text or bytes')
def codec(S):
    ct = S.choice('type', [None, 'application/json', 'Application/JSON', 'application/json; charset=utf-8', 'text/json', 'text/plain', 'TEXT/plain;charset=x', 'image/png'])
    name = S.choice('name', ['Content-Type', 'content-type', 'CONTENT-TYPE'])
    t = S.str('t', 2, 0, [(32, 33), (35, 91), (93, 126)])
    plain = ct is not None and ct.lower().startswith('text/plain')
    as_bytes = S.choice('bytes', [False, True])
    resp = response({'default': {'description': 'a', 'schema': {'type': 'string'}}})
    raw = t if plain else '"' + t + '"'
    if as_bytes:
        raw = raw.encode('ascii')
    e, _ = S.fn_raises(Exception, lambda: resp.apply_with(200, raw, {} if ct is None else {name: ct}))
    S.check((e is None) == (ct != 'image/png'), 'an unknown media type is guessed' if e is None else 'the body is not decoded')
    S.check(S.same(resp.raw, raw), 'the raw body is changed')
    if e is None:
        S.check(S.same(resp.data, t), 'the body is decoded to something else')


@obligation('plain', bounds='text/plain bodies of up to 2 Unicode characters (UTF-8) as text or bytes for texts, of a number for integers, of up to 2 digits for lists, and any bytes up to 3 for byte and binary',
            cases=[dict(typ=t) for t in ('string', 'integer', 'array', 'byte', 'binary')])
def plain(S, typ):
    schema = {'string': {'type': 'string'}, 'integer': {'type': 'integer'}, 'byte': {'type': 'string', 'format': 'byte'},
              'binary': {'type': 'string', 'format': 'binary'}, 'array': {'type': 'array', 'items': {'type': 'integer'}}}[typ]
    resp = response({'default': {'description': 'a', 'schema': schema}})
    if typ in ('byte', 'binary'):
        raw = S.bytes('b', 3)
        resp.apply_with(200, raw, {'Content-Type': 'text/plain'})
        S.check(S.same(resp.data.v, raw), 'the content is changed')
        return
    if typ == 'string':
        raw = want = S.str('t', 2, 0, [(0, 0xd7ff), (0xe000, 0x10ffff)])
    elif typ == 'integer':
        want = S.int('i', -99, 99)
        raw = str(want)
    else:
        want = [S.int('i%d' % i, 0, 9) for i in range(S.choice('n', [1, 2]))]
        raw = ','.join([str(w) for w in want])
    if S.choice('bytes', [False, True]):
        raw = raw.encode('utf-8')
    resp.apply_with(200, raw, {'Content-Type': 'text/plain; charset=utf-8'})
    S.check(S.same(resp.raw, raw), 'the raw body is changed')
    S.check(S.same(list(resp.data) if typ == 'array' else resp.data, want), 'the body is decoded to something else')


@obligation('body', bounds='objects with an integer, a text of up to 1 character, a date-time and a nested list, each there or not; unknown keys kept or dropped; a read-only property')
def body(S):
    d = {}
    if S.choice('i?', [False, True]):
        d['i'] = S.int('i', -99, 99)
    if S.choice('s?', [False, True]):
        d['s'] = S.str('s', 1, 0, [(32, 33), (35, 91), (93, 126)])
    if S.choice('l?', [False, True]):
        d['l'] = [{'n': S.int('n', 0, 9)}]
    if S.choice('x?', [False, True]):
        d['x'] = S.int('x', 0, 9)
    if S.choice('r?', [False, True]):
        d['r'] = S.int('r', 0, 9)
    addp = S.choice('additional', [False, True])
    schema = {'type': 'object', 'required': ['i'], 'properties': {
        'i': {'type': 'integer'}, 'r': {'type': 'integer', 'readOnly': True}, 's': {'type': 'string'}, 'l': {'type': 'array', 'items': {'type': 'object', 'properties': {'n': {'type': 'integer', 'maximum': 5}}}}}}
    schema['additionalProperties'] = addp
    resp = response({'200': {'description': 'a', 'schema': schema}})
    ok = 'i' in d
    if 'l' in d:
        ok = S.all(ok, d['l'][0]['n'] <= 5)
    e, _ = S.fn_raises((ValidationError, ValueError), lambda: resp.apply_with(200, json.dumps(d)))
    S.check(S.iff(e is None, ok), 'the body is not checked by its definition')
    if e is None:
        if not addp:
            d.pop('x', None)
        S.check(S.same(resp.data, d), 'the body is decoded to something else')


@obligation('reset', bounds='a response reused after a reset, any status, with or without header and body each time; raw bodies only or decoded')
def reset(S):
    resp = response({'200': {'description': 'a', 'schema': {'type': 'integer'}}, '404': {'description': 'b'}})
    only = S.choice('raw_only', [False, True])
    resp.raw_body_only = only
    for r in (1, 2):
        st = S.choice('status%d' % r, [200, 404])
        i = S.int('i%d' % r, 0, 99)
        raw = str(i) if S.choice('raw%d' % r, [False, True]) else None
        h = {'K%d' % r: 'v'} if S.choice('h%d' % r, [False, True]) else None
        got = resp.apply_with(st, raw, h)
        S.check(got is resp, 'applying is not chainable')
        S.check(resp.status == st and S.same(resp.raw, raw), 'status or raw body are others')
        S.check(S.same(resp.data, i if raw is not None and st == 200 and not only else None), 'data of another response')
        S.check(dict((k, list(v)) for k, v in resp.header.items()) == ({'K%d' % r: ['v']} if h else {}), 'headers of another response')
        resp.reset()
        S.check(resp.status is None and resp.raw is None and resp.data is None and len(resp.header) == 0, 'something remains after the reset')


@obligation('sequence', bounds='two responses one after the other, with or without a reset in between, by the same object or another one of the same operation: any of the codes 200, 404, 500 each, bodies and headers with any integer 0..99')
def sequence(S):
    a = app(op_doc([], responses=DEFS))
    _, resp = a.op['theOp']()
    between = S.choice('between', ['reset', 'none', 'another'])
    for r in (1, 2):
        st = S.choice('status%d' % r, [200, 404, 500])
        i = S.int('i%d' % r, 0, 99)
        t = str(i)
        raw = {200: t, 404: '"' + t + '"', 500: '[1, ' + t + ']'}[st]
        e, _ = S.fn_raises(ValidationError, lambda: resp.apply_with(st, raw, {'X': t}))
        S.check(S.iff(e is None, S.any(st != 200, i <= 50)), 'the body is not checked by the definition of its status')
        if e is not None:
            return
        want = {200: i, 404: t, 500: [1, i]}[st]
        S.check(S.same(list(resp.data) if st == 500 else resp.data, want), 'the body is decoded to something else')
        x = resp.header['X']
        S.check(len(x) == (2 if r == 2 and between == 'none' else 1), 'a header is lost or doubled')
        want = {200: i, 404: t, 500: [i]}[st]
        S.check(S.same(list(x[-1]) if st == 500 else x[-1], want), 'the header is not converted by its definition')
        if between == 'reset':
            resp.reset()
        elif between == 'another':
            _, resp = a.op['theOp']()


@obligation('no-status', bounds='a body without a status is refused')
def nostatus(S):
    resp = response({'default': {'description': 'a', 'schema': {'type': 'integer'}}})
    e, _ = S.fn_raises(Exception, lambda: resp.apply_with(None, str(S.int('i', 0, 9))))
    S.check(e is not None and resp.data is None, 'a body without a status is decoded')
