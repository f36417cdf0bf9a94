"""C35 conversions registered by the user"""
import json
from urllib.parse import unquote
from symx.api import obligation
from pyswagger.errs import ValidationError
from pyswagger.primitives import Primitive
from harness.util import app, load, op_doc, doc, schema, param, items
from harness.v12 import docs12, res12, op12, app12

# a definition at a place, and how its values are given and come out
REQ = ['query', 'header', 'path', 'formData']
SCHEMA = ['schema', 'property', 'additional', 'items', 'member', 'ref', 'nested']
PLACES = REQ + ['param-items', 'body', 'body-property', 'body-additional', 'body-items', 'body-member', 'response', 'response-items', 'response-header', 'default', 'property-default', 'shared-param'] + SCHEMA


def put(a, place, d, v, b):
    """convert v by the definition d at a place -> what came out, whether it comes out as text, context is reading"""
    pf = a
    if place == 'schema':
        return pf.produce(schema(d), v), False
    if place == 'property':
        return pf.produce(schema({'type': 'object', 'properties': {'a': d, 'b': {'type': 'boolean'}}}), {'a': v, 'b': b})['a'], False
    if place == 'additional':
        return pf.produce(schema({'type': 'object', 'properties': {'b': {'type': 'boolean'}}, 'additionalProperties': d}), {'b': b, 'a': v})['a'], False
    if place == 'items':
        r = pf.produce(schema({'type': 'array', 'items': d}), [v])
        return r[0], False
    if place == 'nested':
        r = pf.produce(schema({'type': 'array', 'items': {'properties': {'a': {'type': 'array', 'items': d}}}}), [{'a': [v]}])
        return r[0]['a'][0], False
    if place == 'member':
        return pf.produce(schema({'allOf': [{'description': 'x'}, d]}), v), False
    kw = dict(prim=pf)
    if place == 'ref':
        x = app(doc({}, definitions={'D': d, 'E': {'type': 'object', 'properties': {'a': {'$ref': '#/definitions/D'}}}}), **kw)
        return pf.produce(x.resolve('#/definitions/E'), {'a': v})['a'], False
    if place in ('response', 'response-items', 'response-header'):
        r = {'description': 'd', 'schema': d if place == 'response' else {'type': 'array', 'items': d}} if place != 'response-header' else {'description': 'd', 'headers': {'X': d}}
        _, resp = app(op_doc([], responses={'200': r}), **kw).op['theOp']()
        if place == 'response-header':
            resp.apply_with(200, None, {'X': v})
            return resp.header['X'][0], False
        resp.apply_with(200, json.dumps(v if place == 'response' else [v]))
        return (resp.data if place == 'response' else resp.data[0]), False
    args = {'arg': v}
    top = {}
    if place == 'default':
        p, args = dict(d, name='arg', default=v, **{'in': 'query'}), {}
    elif place == 'param-items':
        p = {'name': 'arg', 'in': 'query', 'type': 'array', 'items': d, 'collectionFormat': 'multi'}
        args = {'arg': [v]}
    elif place in ('body', 'body-property', 'property-default', 'body-additional', 'body-items', 'body-member'):
        s = d if place == 'body' else {'type': 'object', 'properties': {'b': {'type': 'boolean'}}, 'additionalProperties': d} if place == 'body-additional' else \
            {'type': 'array', 'items': d} if place == 'body-items' else {'allOf': [{'properties': {'a': d}}, {'properties': {'b': {'type': 'boolean'}}}]} if place == 'body-member' else {'type': 'object', 'properties': {'a': d if place != 'property-default' else dict(d, default=v)}}
        p = {'name': 'arg', 'in': 'body', 'schema': s}
        args = {'arg': v if place == 'body' else {} if place == 'property-default' else [v] if place == 'body-items' else {'a': v}}
    elif place == 'shared-param':
        p, top = {'$ref': '#/parameters/P'}, {'parameters': {'P': dict(d, name='arg', **{'in': 'query'})}}
    else:
        p = dict(d, name='arg', **{'in': place})
    req, _ = app(op_doc([p], '/p/{arg}' if place == 'path' else '/p', 'post', top), **kw).op['theOp'](**args)
    if place in ('body', 'body-property', 'property-default', 'body-additional', 'body-items', 'body-member'):
        r = req._p['body']['arg']
        return (r if place == 'body' else r[0] if place == 'body-items' else r['a']), False
    if place == 'header':
        return req._p['header']['arg'], True
    if place == 'path':
        return req._p['path']['arg'], True
    l = list(req._p['formData']) if place == 'formData' else list(req.query)
    assert len(l) == 1 and l[0][0] == 'arg', l
    return l[0][1], True


READ = ['response', 'response-items', 'response-header'] + SCHEMA


def bounds_of(what):
    return what + '; definitions in query, header, path, form (directly, shared by reference, as default), items of a parameter, body, its properties (also by default), response, its items and headers, and schemas (directly, as property, additionalProperties, items, allOf member, by reference, nested)'


@obligation('used', bounds=bounds_of('integers in [-1000, 1000] (or texts of 0..2 characters) of type integer / string / a new type, formats of up to 2 characters (or none) declared and registered; any maximum as further constraint of the definition'),
            cases=[dict(place=p, typ=t) for p in PLACES for t in ('integer', 'string', 'money') if not (t == 'money' and p in ('response-header',))])
def used(S, place, typ):
    reg = S.str('reg', 2, 1, 'ab') if S.choice('reg_none', [False, True]) is False else None
    d = {'type': typ, 'maximum': 2000}
    m = S.int('maximum', 1500, 2000)
    d['maximum'] = m
    dec = None
    if S.choice('dec_none', [False, True]) is False:
        dec = S.str('dec', 2, 1, 'abA')
        d['format'] = dec
    v = S.int('v', -1000, 1000) if typ != 'string' else S.str('v', 1 if place == 'path' else 2, 0, [(97, 98)])
    b = S.bool('b')
    log = []

    def create(obj, val, ctx):
        log.append((obj.type, obj.format, obj.maximum, val, ctx['read']))
        return 'x' + val if typ == 'string' else val + 1
    pf = Primitive()
    pf.register(typ, reg, create)
    # as header value, there are only texts
    mine = reg is None if dec is None else S.any(reg is None, S.same(dec, reg)) if reg is None else S.same(dec, reg)
    if place == 'response-header' and typ == 'integer':
        # values of headers are texts, what the creater gets is a text as well
        v = S.str('h', 2, 1, '0123456789')

        def create(obj, val, ctx):
            log.append((obj.type, obj.format, obj.maximum, val, ctx['read']))
            return 'x' + val
        pf.register(typ, reg, create)
    try:
        r, text = put(pf, place, d, v, b)
    except ValueError:
        S.check(S.all(S.not_(mine), typ == 'money'), 'a value of a registered type is rejected')
        S.check(log == [], 'the conversion is used for another format')
        return
    S.check(S.any(mine, typ != 'money'), 'a value of an unknown type is accepted')
    if mine:
        S.reach('mine')
        S.check(len(log) == 1, 'the registered conversion is not used exactly once')
        t, f, mx, val, read = log[0]
        S.check(S.all(t == typ, S.same(f, dec), S.same(mx, m)), 'the conversion is given another definition')
        S.check(S.same(val, v), 'the conversion is given another value')
        S.check(read == (place in READ), 'the conversion is told the other direction')
        want = 'x' + v if typ == 'string' or place == 'response-header' else v + 1
    else:
        S.check(log == [], 'the conversion is used for another format')
        want = v if place != 'response-header' or typ == 'string' else int(v)
    S.check(S.same(r, str(want) if text else want), 'the converted value is another one')
    S.observe('r', r)


@obligation('others', bounds='any two of the formats none, int32, int64, x of type integer: one is registered on a factory, another one declared; also for type number; on the same factory, or on another one (made before or after)',
            cases=[dict(typ=t) for t in ('integer', 'number', 'string')])
def others(S, typ):
    fs = [None, 'int32', 'int64', 'x'] if typ != 'string' else [None, '', 'email', 'x']
    reg, dec = S.choice('reg', fs), S.choice('dec', fs)
    rt = S.choice('rtype', ['integer', 'number', 'string', 'boolean'])
    where = S.choice('where', ['same', 'before', 'after'])
    v = S.int('v', -1000, 1000) if typ != 'string' else S.choice('v', ['', 'u@x.yz', 'u@x.org'])
    log = []

    def create(obj, val, ctx):
        log.append(val)
        return 'mine'
    other = Primitive()
    pf = Primitive()
    pf.register(rt, reg, create)
    if where == 'after':
        other = Primitive()
    if where == 'same':
        other = pf
    d = {'type': typ}
    if dec is not None:
        d['format'] = dec
    # the formats of a type without own conversion use the one without format
    hit = rt == typ and where == 'same' and (reg == dec or (reg is None and dec == 'x'))
    e, r = S.fn_raises((ValueError, ValidationError), other.produce, schema(d), v)
    if hit:
        S.check(e is None and r == 'mine' and len(log) == 1, 'the registered conversion is not used')
        return
    S.check(log == [], 'the conversion is used for another type, format or factory')
    ok = True
    if dec == 'email' and v == '':
        ok = False
    S.check(S.iff(e is None, ok), 'registering changes what is accepted elsewhere')
    if ok:
        S.check(S.same(r, float(v) if typ == 'number' and dec in (None, 'x') else v), 'registering changes the values elsewhere')


@obligation('second', bounds='integers in [-1000, 1000], any limit in [-50, 50]: the second pass gets definition, created and given value, and rejects values; in allOf it is asked for every member (2 limits), for properties and items',
            cases=[dict(place=p) for p in ('plain', 'own', 'members', 'property', 'items', 'param')])
def second(S, place):
    v = S.int('v', -1000, 1000)
    m1, m2 = S.int('m1', -50, 50), S.int('m2', -50, 50)
    log = []

    def create(obj, val, ctx):
        return val * 2

    def check(obj, ret, val, ctx):
        log.append((obj.maximum, ret, val))
        if obj.maximum is not None and ret > obj.maximum:
            raise ValidationError('too large')
        return val
    pf = Primitive()
    pf.register('integer', 'twice', create, check)
    d = {'type': 'integer', 'format': 'twice', 'maximum': m1}
    ok = v * 2 <= m1
    if place == 'plain':
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(schema(d), v))
    elif place == 'param':
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(param(dict(d, name='a', **{'in': 'query'})), v))
    elif place == 'property':
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(schema({'type': 'object', 'properties': {'b': {'type': 'integer', 'maximum': 2000}, 'a': d}}), {'b': 1999, 'a': v})['a'])
    elif place == 'items':
        w = S.int('w', -1000, 1000)
        ok = S.all(ok, w * 2 <= m1)
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(schema({'type': 'array', 'items': d}), [v, w]))
        if e is None:
            S.check(len(r) == 2 and S.same(r[1], w * 2), 'the value is not what was created')
            r = r[0]
    elif place == 'own':
        # the type of the schema itself goes before those of its members
        o = {'type': 'integer', 'maximum': m2}
        ok = S.all(ok, v * 2 <= m2)
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(schema(dict(d, allOf=[o])), v))
    else:
        first = S.choice('first', [True, False])
        o = {'maximum': m2}
        ms = [d, o] if first else [o, d]
        ok = S.all(ok, v * 2 <= m2)
        e, r = S.fn_raises(ValidationError, lambda: pf.produce(schema({'allOf': ms}), v))
    S.check(S.iff(e is None, ok), 'the second pass does not decide')
    for mx, ret, val in log:
        S.check(S.any(*[S.all(S.same(val, x), S.same(ret, x * 2)) for x in ([v] if place != 'items' else [v, w])]), 'the second pass gets other values')
    if e is None:
        S.check(S.same(r, v * 2), 'the value is not what was created')


@obligation('replaced', bounds='a type integer, string, number, boolean, array, object or a new one, with a format of two or none: converted (or refused) first, then a conversion is registered for it, then another one for it: the last one is used; integers in [-99, 99]',
            cases=[dict(typ=t) for t in ('integer', 'string', 'number', 'boolean', 'array', 'object', 'new')])
def replaced(S, typ):
    f, g = S.choice('declared', [None, 'x', 'int32']), S.choice('registered', [None, 'x', 'int32'])
    i = S.int('i', -99, 99)
    v = {'string': lambda: str(i), 'boolean': lambda: i > 0, 'array': lambda: [i], 'object': lambda: {'a': i}}.get(typ, lambda: i)()
    d = {'type': typ}
    if f is not None:
        d['format'] = f
    pf = Primitive()
    if S.choice('used', [True, False]):
        S.fn_raises(ValueError, pf.produce, schema(d), v)
        S.check(pf.is_primitive(typ) == (typ != 'new'), 'a type is registered that is none, or the reverse')
    for k in ('first', 'second'):
        pf.register(typ, g, lambda obj, val, ctx: (k, val))
        S.check(pf.is_primitive(typ), 'a registered type is none')
        e, r = S.fn_raises(ValueError, pf.produce, schema(d), v)
        # without a conversion for its format, a type is converted as without format
        if f == g or (g is None and f == 'x') or (g is None and f == 'int32' and typ not in ('integer', 'number')):
            S.check(e is None and isinstance(r, tuple) and r[0] == k and S.same(r[1], v), 'the registered conversion is not used')
        else:
            S.check(not isinstance(r, tuple) and (e is not None) == (typ == 'new'), 'the conversion is used for another format')


@obligation('objects', bounds='a conversion of type object or array with a format of up to 2 characters, declared with any format: it gets the whole value; elements with integers in [-99, 99]',
            cases=[dict(typ=t) for t in ('object', 'array')])
def objects(S, typ):
    reg, dec = S.str('reg', 2, 1, 'aA'), S.str('dec', 2, 1, 'aA')
    x = S.int('x', -99, 99)
    got = []

    def create(obj, val, ctx):
        got.append(val)
        return ('mine', val)
    pf = Primitive()
    pf.register(typ, reg, create)
    d = {'type': typ, 'format': dec}
    if typ == 'object':
        d['properties'] = {'a': {'type': 'integer'}}
        v = {'a': x}
    else:
        d['items'] = {'type': 'integer'}
        v = [x]
    r = pf.produce(schema(d), v)
    if reg == dec:
        S.check(r == ('mine', v) and got == [v], 'the registered conversion is not used')
    else:
        S.check(got == [], 'the conversion is used for another format')
        S.check(S.same(dict(r) if typ == 'object' else list(r), v), 'the value is converted in another way')


@obligation('upgrade-items', bounds='Swagger 1.2: a type registered with a format, "x" or any of up to 2 characters "ax", as type of the items of a parameter and of the values of one that allows several')
def upgrade_items(S):
    f = S.str('f', 2, 1, 'ax')
    typ = S.choice('type', ['money', 'boolean', 'integer'])
    v = S.int('v', 0, 99)
    log = []

    def create(obj, val, ctx):
        log.append((val, ctx['read']))
        return 'mine'
    pf = Primitive()
    pf.register(typ, 'x', create)
    pf.register('money', None, lambda obj, val, ctx: val)
    d = {'type': typ, 'format': f}
    if S.choice('items', [False, True]):
        p = {'paramType': 'query', 'name': 'arg', 'type': 'array', 'items': d}
    else:
        p = dict(d, paramType='query', name='arg', allowMultiple=True)
    a = app12(docs12({'x': res12([('/p', [op12(params=[p])])])}), prim=pf)
    w = v if typ != 'boolean' else True
    req, _ = a.op['theOp'](arg=[w, w])
    S.check(len(log) == (2 if f == 'x' else 0), 'the registered conversion is not used exactly where it is declared')
    S.check(S.all(*[S.all(S.same(x, w), r is False) for x, r in log]), 'the conversion gets something else')
    S.check(S.same(list(req.query), [('arg', 'mine,mine' if f == 'x' else str(w) + ',' + str(w))]), 'another query')


@obligation('upgrade', bounds='Swagger 1.2: a type name of up to 2 characters is a primitive if registered, otherwise it names a model; as type of a parameter, a property and items')
def upgrade(S):
    reg, dec = S.str('reg', 2, 1, 'ab'), S.str('dec', 2, 1, 'ab') if S.choice('like', [False, True]) is False else S.choice('name', ['String', 'Object', 'DATE'])
    pf = Primitive()
    pf.register(reg, None, lambda obj, val, ctx: ('mine', val))
    place = S.choice('place', ['parameter', 'property', 'items'])
    v = S.int('v', -99, 99)
    names = ['a', 'b', 'aa', 'ab', 'ba', 'bb', 'String', 'Object', 'DATE']
    models = dict((n, {'id': n, 'properties': {'x': {'type': 'integer'}}}) for n in names)
    ps = [{'paramType': 'body', 'name': 'body', 'type': dec}]
    if place != 'parameter':
        t = {'type': dec} if place == 'property' else {'type': 'array', 'items': {'type': dec} if dec == reg else {'$ref': dec}}
        models['T'] = {'id': 'T', 'properties': {'y': t}}
        ps = [{'paramType': 'body', 'name': 'body', 'type': 'T'}]
    a = app12(docs12({'x': res12([('/p', [op12(method='POST', params=ps)])], models=models)}), prim=pf)
    w = v if reg == dec else {'x': v}
    if place == 'property':
        w = {'y': w}
    elif place == 'items':
        w = {'y': [w]}
    req, _ = a.op['theOp'](body=w)
    r = req._p['body']['body']
    if place != 'parameter':
        r = r['y'] if place == 'property' else r['y'][0]
    S.check(S.same(r if reg == dec else dict(r), ('mine', v) if reg == dec else {'x': v}), 'a type is taken for another one')
