"""C11 content negotiation"""
from urllib.parse import parse_qsl
from symx.api import obligation
from pyswagger.primitives import MimeCodec
from pyswagger.primitives.codec import PlainCodec
from harness.util import app, op_doc

FORM, MULTI = 'application/x-www-form-urlencoded', 'multipart/form-data'


class AnyCodec(MimeCodec):
    """accepts every media type and remembers which one was asked for"""
    def codec(self, mime):
        return PlainCodec()


def types(S, tag, n=2, top='abA;'):
    return [S.str('%s%d' % (tag, i), 2, 1, top) for i in range(S.choice('n_' + tag, list(range(n + 1))))]


def build(S, params, consumes, produces, level):
    op, top = {}, {}
    for k, v in (('consumes', consumes), ('produces', produces)):
        if level == 'op':
            op[k] = v
        else:
            top[k] = v
    if level == 'both':
        op, top = top, {'consumes': ['x/top'], 'produces': ['x/top']}
        op = dict((k, v) for k, v in op.items() if v)
    return app(op_doc(params, method='post', top=top, **op), mime_codec=AnyCodec())


def ask(S, req, consume, produce):
    if consume is not None:
        S.check(req.consume(consume) is req, 'choosing is not chainable')
    if produce is not None:
        S.check(req.produce(produce) is req, 'choosing is not chainable')


def prepared(S, req, ok, **k):
    e, _ = S.fn_raises(Exception, req.prepare, **k)
    S.check(S.iff(e is None, ok), 'a choice outside of the lists is accepted' if e is None else 'an allowed choice is rejected')
    if e is not None:
        S.check(not isinstance(e, (AttributeError, TypeError, KeyError, NameError)), 'it fails with an internal error')
    return e is None


@obligation('accept', bounds='produces of up to 2 media types (texts up to 2 characters of "abA;"), given by operation or document, any explicit choice of up to 3 printable characters, with or without a parameter "accept"',
            cases=[dict(level=l) for l in ('op', 'doc')])
def accept(S, level):
    produces = types(S, 'p')
    produce = S.str('produce', 3, 1, [(33, 126)]) if S.choice('explicit', [False, True]) else None
    ps = [{'name': 'accept', 'in': 'header', 'type': 'string'}] if S.choice('param', [False, True]) else []
    a = build(S, ps, [], produces, level)
    req, _ = a.op['theOp'](**({'accept': 'own'} if ps else {}))
    ask(S, req, None, produce)
    want = produce if produce is not None else (produces[0] if produces else None)
    ok = produce is None or not produces or S.any(*[S.same(produce, p) for p in produces])
    if not prepared(S, req, ok):
        return
    h = dict((k.lower(), v) for k, v in req.header.items())
    S.check(len(h) == len(req.header), 'a header is there twice')
    if want is None and ps:
        want = 'own'
    S.check(S.same(h, {} if want is None else {'accept': want}), 'the Accept header is another one')


@obligation('body', bounds='consumes of up to 2 media types (texts up to 2 characters), given by operation, document or both, any explicit choice of up to 2 characters, body given or not',
            cases=[dict(level=l, n=n) for l in ('op', 'doc', 'both') for n in (0, 1, 2)])
def body(S, level, n):
    consumes = [S.str('c%d' % i, 2 if n < 2 else 1, 1, 'ab;') for i in range(n)]
    consume = S.str('consume', 2 if n < 2 else 1, 1, 'ab;*/') if S.choice('explicit', [False, True]) else None
    a = build(S, [{'name': 'b', 'in': 'body', 'schema': {'type': 'string'}}], consumes, [], level)
    given = S.choice('given', [False, True])
    req, _ = a.op['theOp'](**({'b': 'text'} if given else {}))
    ask(S, req, consume, None)
    if level == 'both' and not consumes:
        consumes = ['x/top']
    want = consume if consume is not None else (consumes[0] if consumes else 'application/json')
    ok = not given or consume is None or not consumes or S.any(*[S.same(consume, c) for c in consumes])
    if not prepared(S, req, ok):
        return
    S.check(S.same(req.header.get('Content-Type'), want if given else None), 'the Content-Type is another one')
    S.check(S.same(req.data, 'text' if given else None), 'the body is another one')


@obligation('form', bounds='a form field and a file, each given or not; consumes any ordered selection of the two form types and one other, or empty; explicit choice of any of them; files encoded or left to the client',
            cases=[dict(field=f, file=g) for f in (False, True) for g in (False, True)])
def form(S, field, file):
    lists = [[], [FORM], [MULTI], [FORM, MULTI], [MULTI, FORM], ['x/y'], ['x/y', FORM], ['x/y', MULTI], [FORM + 'x']]
    consumes = S.choice('consumes', lists)
    consume = S.choice('explicit', [None, FORM, MULTI])
    level = S.choice('level', ['op', 'doc'])
    a = build(S, [{'name': 'x', 'in': 'formData', 'type': 'string'}, {'name': 'f', 'in': 'formData', 'type': 'file'}], consumes, [], level)
    args = {}
    v = S.str('v', 1, 0, 'a &')
    if field:
        args['x'] = v
    if file:
        import io
        args['f'] = dict(filename='n', data=io.BytesIO(b'data'))
    req, _ = a.op['theOp'](**args)
    ask(S, req, consume, None)
    handle = S.choice('handle', [True, False])
    typ = MULTI if file else FORM if field else None
    ok = typ is None or not consumes or typ in consumes or (file and not handle)
    if not prepared(S, req, ok, handle_files=handle):
        return
    ct = req.header.get('Content-Type')
    if typ is None or (file and not handle):
        S.check(ct is None, 'a Content-Type is invented')
        if typ:
            S.check(S.same(list(req.data), [('x', v)] if field else []), 'the form is another one')
        else:
            S.check(req.data is None, 'a body is invented')
    elif file:
        S.check(ct.split(';')[0] == MULTI, 'the Content-Type is another one')
    else:
        S.check(ct == FORM, 'the Content-Type is another one')
        S.check(S.same(parse_qsl(req.data, True), [('x', v)]), 'the form is another one')


KINDS = ['application/json', 'text/plain', 'application/xml', 'application/vnd.x+json', '*/*', 'application/json; charset=utf-8', FORM, MULTI]


@obligation('known', bounds='consumes or produces of 1 or 2 of the well-known media types and JSON or text after them (JSON, text, XML, vendor JSON, */*, JSON with a parameter, the form types) in any order, of operation or document; explicit choice of none, JSON or text; a body is given',
            cases=[dict(first=k, of=o) for k in KINDS for o in ('consumes', 'produces')])
def known(S, first, of):
    l = [first]
    for i, more in enumerate([KINDS, KINDS[:2]]):
        k = S.choice('k%d' % i, [None] + more)
        if k is not None and k not in l:
            l.append(k)
    asked = S.choice('asked', [None, 'text/plain', 'application/json'])
    consumes, produces = (l, ['x/y']) if of == 'consumes' else (['x/y'], l)
    a = build(S, [{'name': 'b', 'in': 'body', 'schema': {'type': 'string'}}], consumes, produces, S.choice('level', ['op', 'doc']))
    req, _ = a.op['theOp'](b='text')
    ask(S, req, asked if of == 'consumes' else None, asked if of == 'produces' else None)
    if not prepared(S, req, asked is None or asked in l):
        return
    want = asked or l[0]
    S.check(req.header.get('Content-Type') == (want if of == 'consumes' else 'x/y'), 'the Content-Type is another one')
    S.check(req.header.get('Accept') == (want if of == 'produces' else 'x/y'), 'the Accept header is another one')


@obligation('again', bounds='consumes and produces of two of three media types; two choices after each other for both, each one of the types, an undeclared one or None (which withdraws the choice), prepared after both or, with a reset, after each: the last one counts')
def again(S):
    types = ['a/a', 'b/b', 'c/c']
    lists = [types[:2], types[1:], [types[2], types[0]]]
    kind = S.choice('kind', ['consume', 'produce'])
    declared = S.choice('declared', lists)
    first, last = S.choice('first', types), S.choice('last', types + [None])
    between = S.choice('between', [False, True])
    a = build(S, [{'name': 'b', 'in': 'body', 'schema': {'type': 'string'}}], declared if kind == 'consume' else [], declared if kind == 'produce' else [], 'op')
    t = S.str('t', 1, 0, 'ab')
    req, _ = a.op['theOp'](b=t)
    for i, c in enumerate((first, last)):
        getattr(req, kind)(c)
        if not i and not between:
            continue
        ok = c is None or c in declared
        if prepared(S, req, ok):
            name, other = ('Content-Type', 'Accept') if kind == 'consume' else ('Accept', 'Content-Type')
            S.check(req.header.get(name) == (c or declared[0]), 'another choice than the last one is used')
            S.check(req.header.get(other) == (None if other == 'Accept' else 'application/json'), 'the other header is changed')
            S.check(S.same(req.data, t), 'the body is another one')
        req.reset()
