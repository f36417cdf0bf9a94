"""C28 the renderer"""
import random
from symx.api import obligation
from pyswagger.primitives import Renderer, render
from harness.util import app, doc, op_app

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Cut(Exception):
    """more draws than the bound"""


class Source(object):
    """a random source with any outcome"""

    def __init__(self, S, draws=12, letters='ab'):
        self.S, self.n, self.draws, self.letters = S, 0, draws, letters
        for k in ('randint', 'choice', 'random', 'uniform'):
            S.patch(random, k, getattr(self, k))
        if hasattr(render, 'max_tries'):
            S.patch(render, 'max_tries', 1)

    def name(self):
        self.n += 1
        if self.n > self.draws:
            raise Cut()
        return 'draw%d' % self.n

    def randint(self, a, b):
        if a > b:
            raise ValueError('empty range for randint')
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        v = self.S.int(self.name(), -2 ** 65, 2 ** 65)
        self.S.assume(self.S.all(a <= v, v <= b))
        return v

    def choice(self, seq):
        if len(seq) > 20:
            # letters
            return self.S.str(self.name(), 1, 1, self.letters)
        return self.S.choice(self.name(), list(seq))

    def random(self):
        return self.S.choice(self.name(), [0.0, 0.125, 0.25, 0.5, 0.75, 0.875])

    def uniform(self, a, b):
        return self.S.choice(self.name(), [a, b, (a + b) / 2])


def num_ok(S, d, v):
    c = []
    if d.get('maximum') is not None:
        c.append(v < d['maximum'] if d.get('exclusiveMaximum') else v <= d['maximum'])
    if d.get('minimum') is not None:
        c.append(v > d['minimum'] if d.get('exclusiveMinimum') else v >= d['minimum'])
    if d.get('multipleOf'):
        c.append(v % d['multipleOf'] == 0)
    return S.all(*c)


def ok(S, d, v, defs=None):
    """whether a value meets a definition"""
    if '$ref' in d:
        return ok(S, defs[d['$ref'].split('/')[-1]], v, defs)
    t = d.get('type')
    if d.get('enum'):
        return S.any(*[S.same(v, e) for e in d['enum']])
    if t == 'integer':
        return isinstance(v, int) and not isinstance(v, bool) and num_ok(S, d, v)
    if t == 'number':
        return isinstance(v, float) and num_ok(S, d, v)
    if t == 'string':
        return isinstance(v, str) and S.all(d.get('minLength') is None or len(v) >= d['minLength'], d.get('maxLength') is None or len(v) <= d['maxLength'])
    if t == 'boolean':
        return isinstance(v, bool)
    if t == 'array':
        if not isinstance(v, list):
            return False
        c = [ok(S, d['items'], x, defs) for x in v]
        c.append(d.get('minItems') is None or len(v) >= d['minItems'])
        c.append(d.get('maxItems') is None or len(v) <= d['maxItems'])
        if d.get('uniqueItems'):
            c.extend([x != y for i, x in enumerate(v) for y in v[:i]])
        return S.all(*c)
    if not isinstance(v, dict):
        return False
    props, addp = d.get('properties', {}), d.get('additionalProperties', True)
    c = [d.get('minProperties') is None or len(v) >= d['minProperties'], d.get('maxProperties') is None or len(v) <= d['maxProperties']]
    c.extend([n in v for n in d.get('required', [])])
    for k in v:
        if k in props:
            c.append(ok(S, props[k], v[k], defs))
        elif addp is not True:
            c.append(addp is not False and ok(S, addp, v[k], defs))
    return S.all(*c)


def rendered(S, d, opt=None, draws=12, kind='schema', must=True, **defs):
    """what is rendered for a definition, None when there were too many draws"""
    if kind == 'schema':
        a = app(doc({}, definitions=dict(defs, X=d)), strict=False)
        o = a.resolve('#/definitions/X')
    else:
        a = app(doc({}, parameters={'X': dict(d, name='x', **{'in': kind})}, definitions=dict(defs)), strict=False)
        o = a.resolve('#/parameters/X')
    r = Renderer()
    Source(S, draws)
    full = r.default()
    full.update(opt or {})
    keep = dict(full)
    try:
        v = r.render(o, opt=full)
    except Cut:
        return None
    except Exception as e:
        S.check(not must, 'nothing is rendered: ' + type(e).__name__)
        return None
    S.check(full == keep, 'the options of the caller are changed')
    S.check(ok(S, d, v, defs), 'the rendered value does not meet the definition')
    # the library itself accepts it
    e, _ = S.fn_raises(Exception, lambda: o._prim_(v, a.prim_factory, ctx=dict(read=True)))
    S.check(e is None, 'the rendered value is refused')
    return [v]


def limits(S, d, mk, excl=True):
    if S.choice('has_min', [False, True]):
        d['minimum'] = mk('min')
        if excl and S.choice('excl_min', [False, True]):
            d['exclusiveMinimum'] = True
    if S.choice('has_max', [False, True]):
        d['maximum'] = mk('max')
        if excl and S.choice('excl_max', [False, True]):
            d['exclusiveMaximum'] = True


@obligation('integer', bounds='each of minimum and maximum absent or -6..6 (also beyond 32 and 64 bits), exclusive or not, multipleOf absent, 1 to 4, 2.0 or 1.5; format absent, int32, int64; every outcome of the random source; schema or query parameter',
            cases=[dict(off=o, m=m) for o in (0, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1) for m in (None, 'int', 2.0, 1.5) if o == 0 or m in (None, 'int')])
def integer(S, off, m):
    d = {'type': 'integer'}
    f = S.choice('format', [None, 'int64'] if off else [None, 'int32'] if m == 1.5 else [None, 'int32', 'int64'])
    if f:
        d['format'] = f
    limits(S, d, lambda n: off + S.int(n, -6, 6), off == 0 or m is None)
    if m == 'int':
        d['multipleOf'] = S.choice('m', [1, 2, 3, 4])
    elif m:
        d['multipleOf'] = m
    # there is such an integer
    if 'minimum' in d and 'maximum' in d:
        lo = d['minimum'] + (1 if 'exclusiveMinimum' in d else 0)
        hi = d['maximum'] - (1 if 'exclusiveMaximum' in d else 0)
        step = 3 if m == 1.5 else int(d.get('multipleOf', 1))
        S.assume(-(-lo // step) <= hi // step)
    rendered(S, d, kind=S.choice('kind', ['schema', 'query']) if off == 0 else 'schema')


@obligation('integer_float_limits', bounds='limits of an integer given in halves -3..3, exclusive or not')
def integer_float_limits(S):
    d = {'type': 'integer'}
    limits(S, d, lambda n: S.float(n, 1, -3, 3))
    if 'minimum' in d and 'maximum' in d:
        fits = [num_ok(S, d, i) for i in range(-3, 4)]
        S.assume(S.any(*fits))
    rendered(S, d)


@obligation('number', bounds='each of minimum and maximum absent or in halves -3..3 or integers, exclusive or not, multipleOf absent, 2, 0.5 or 0.25; up to three draws, random outcomes 0 to 7/8 in six steps',
            cases=[dict(m=m) for m in (None, 2, 0.5, 0.25)])
def number(S, m):
    d = {'type': 'number'}
    ints = S.choice('ints', [False, True])
    both = m is not None or S.choice('both', [False, True])
    limits(S, d, (lambda n: S.choice(n, [-3, 0, 2] if ints else [-2.5, 0.0, 0.5])) if not both else (lambda n: S.int(n, -3, 3)) if ints else (lambda n: S.float(n, 1, -3, 3)))
    S.assume(m is not None or both == ('minimum' in d and 'maximum' in d))
    f = S.choice('format', [None, 'double']) if m is None else None
    if f:
        d['format'] = f
    if m:
        d['multipleOf'] = m
    if 'minimum' in d and 'maximum' in d:
        if m:
            S.assume(S.any(*[num_ok(S, d, i * m) for i in range(int(-3 / m) - 1, int(3 / m) + 2)]))
        else:
            S.assume(d['minimum'] < d['maximum'] if 'exclusiveMinimum' in d or 'exclusiveMaximum' in d else d['minimum'] <= d['maximum'])
    rendered(S, d, draws=3)


@obligation('text', bounds='minLength and maxLength absent or 0..3, the option max_str_length 0..3, formats absent, empty and password; schema, query parameter and header parameter')
def text(S):
    d = {'type': 'string'}
    f = S.choice('format', [None, '', 'password'])
    if f is not None:
        d['format'] = f
    lo, hi = S.choice('min', [None, 0, 1, 3]), S.choice('max', [None, 0, 1, 3])
    if lo is not None:
        d['minLength'] = lo
    if hi is not None:
        d['maxLength'] = hi
    S.assume(lo is None or hi is None or lo <= hi)
    n = S.choice('opt', [0, 2])
    v = rendered(S, d, dict(max_str_length=n), kind=S.choice('kind', ['schema', 'query']))
    if v and hi is None:
        S.check(len(v[0]) <= max(n, lo or 0), 'longer than the option allows')


@obligation('enum', bounds='enumerations of two or three members, also falsy ones (0, "", false, 0.0), integers -9..9, texts of up to 2 Unicode characters; every random outcome',
            cases=[dict(typ=t) for t in ('integer', 'number', 'string', 'password', 'email', 'boolean')])
def enum(S, typ):
    mk = {'integer': lambda n: S.int(n, -9, 9), 'number': lambda n: S.float(n, 1, -2, 2), 'boolean': lambda n: S.bool(n)}.get(typ, lambda n: S.str(n, 2))
    d = {'type': 'string', 'format': typ} if typ in ('password', 'email') else {'type': typ}
    d['enum'] = [mk('a'), mk('b')] if S.choice('two', [True, False]) else [mk('a')]
    if typ == 'integer':
        # members are taken as they are
        d['maximum'] = 0
        S.assume(S.all(*[e <= 0 for e in d['enum']]))
    if typ == 'email':
        d['enum'] = ['', 'a@b.c'] if len(d['enum']) == 2 else ['a@b.c']
        S.assume(len(d['enum']) < 2)
    rendered(S, d)


@obligation('array', bounds='minItems and maxItems absent or 0..2, uniqueItems or not, the option max_array_length 0..2; items any integer 0..2, booleans, an enumeration, or an array; every random outcome',
            cases=[dict(of=o) for o in ('integer', 'boolean', 'enum', 'array')])
def array(S, of):
    it = {'integer': lambda: {'type': 'integer', 'minimum': 0, 'maximum': S.int('max', 1, 2)}, 'boolean': lambda: {'type': 'boolean'},
          'enum': lambda: {'type': 'string', 'enum': ['', 'b']}, 'array': lambda: {'type': 'array', 'items': {'type': 'boolean'}, 'maxItems': 1}}[of]()
    d = {'type': 'array', 'items': it}
    lo, hi = S.choice('min', [None, 0, 1, 2]), S.choice('max_', [None, 0, 1, 2])
    S.assume(lo is None or hi is None or lo <= hi)
    if lo is not None:
        d['minItems'] = lo
    if hi is not None:
        d['maxItems'] = hi
    if S.choice('unique', [False, True]):
        d['uniqueItems'] = True
    n = S.choice('opt', [0, 2] if of != 'array' else [1])
    rendered(S, d, dict(max_array_length=n), kind='schema' if of in ('array', 'integer') else 'query', must='uniqueItems' not in d)


@obligation('object', bounds='up to two declared properties, each required or not; minProperties and maxProperties absent or 0..3; additionalProperties absent, false or a definition (with up to two further ones); options minimal_property, max_property, max_prop_count, max_name_length and a template; satisfiable definitions only',
            cases=[dict(addp=x, mode=m) for x in (None, False, 'schema') for m in ('any', 'minimal', 'max')],
            thorough=[dict(addp='schema', mode=m, rich=True) for m in ('any', 'minimal')], budget=300)
def object_(S, addp, mode, rich=False):
    d = {'type': 'object', 'properties': {'a': {'type': 'integer', 'minimum': 5, 'maximum': 7}, 'b': {'type': 'boolean'}}}
    req = [n for n in ('a', 'b') if S.choice('req-' + n, [False, True])]
    if addp == 'schema' and S.choice('req-c', [False, True]):
        req.append('c')
    if req:
        d['required'] = req
    if addp is not None:
        d['additionalProperties'] = {'type': 'integer', 'minimum': 10, 'maximum': 10} if addp else False
    lo, hi = [None, 1, 2, 3], [None, 0, 1, 2, 3]
    if addp == 'schema' and mode != 'max':
        lo, hi = (lo[:3], hi) if rich else ([None, 2], [None, 1, 2])
    lo, hi = S.choice('min', lo), S.choice('max', hi)
    S.assume((lo is None or hi is None or lo <= hi) and (hi is None or len(req) <= hi) and (addp == 'schema' or lo is None or lo <= 2))
    if lo is not None:
        d['minProperties'] = lo
    if hi is not None:
        d['maxProperties'] = hi
    S.assume(not (mode == 'max' and hi is not None and hi < 2 + ('c' in req)))
    t = {'b': True} if S.choice('template', [False, True] if rich or addp != 'schema' else [False]) else {}
    S.assume(not t or mode == 'any')
    v = rendered(S, d, dict(minimal_property=mode == 'minimal', max_property=mode == 'max', max_prop_count=2, max_name_length=1, object_template=t), draws=9 if rich or not addp else 6)
    if v is None:
        return
    v = v[0]
    if t and (hi is None or 'b' in req):
        S.check(v.get('b') is True, 'the template is not used')
    if mode == 'max':
        S.check('a' in v and 'b' in v, 'a property is missing although all are wanted')
    if mode == 'minimal' and addp != 'schema':
        S.check(len(v) <= max(len(req), lo or 0), 'more than the required properties although the least is wanted')


@obligation('additional', bounds='no declared property but up to one required one: minProperties and maxProperties absent or 0..2, additionalProperties a definition, the option max_prop_count 0..2, names of up to one letter')
def additional(S):
    d = {'type': 'object', 'additionalProperties': {'type': 'integer', 'minimum': 10, 'maximum': 10}}
    req = ['c'] if S.choice('req-c', [False, True]) else []
    if req:
        d['required'] = req
    lo, hi = S.choice('min', [None, 0, 1, 2]), S.choice('max', [None, 0, 1, 2])
    S.assume((lo is None or hi is None or lo <= hi) and (hi is None or len(req) <= hi))
    if lo is not None:
        d['minProperties'] = lo
    if hi is not None:
        d['maxProperties'] = hi
    rendered(S, d, dict(max_prop_count=S.choice('count', [0, 2]), max_name_length=1), draws=6)


@obligation('nested', bounds='a definition that refers to others and combines members by allOf, each limit declared once; symbolic limits')
def nested(S):
    m = S.int('m', -3, 3)
    b = {'type': 'array', 'items': {'$ref': '#/definitions/C'}, 'minItems': 1, 'maxItems': 1}
    c = {'type': 'integer', 'minimum': m, 'maximum': 3}
    d = {'allOf': [{'type': 'object', 'required': ['p']}, {'properties': {'p': {'$ref': '#/definitions/B'}}}, {'properties': {'q': {'allOf': [{'type': 'integer'}, {'minimum': m}, {'maximum': 4, 'exclusiveMaximum': True}]}}, 'required': ['q']}]}
    flat = {'type': 'object', 'required': ['p', 'q'], 'properties': {'p': b, 'q': {'type': 'integer', 'minimum': m, 'maximum': 3}}}
    a = app(doc({}, definitions={'X': d, 'B': b, 'C': c}), strict=False)
    Source(S)
    o = a.resolve('#/definitions/X')
    v = Renderer().render(o)
    S.check(ok(S, flat, v, {'B': b, 'C': c}), 'the rendered value does not meet the definition')
    e, _ = S.fn_raises(Exception, lambda: o._prim_(v, a.prim_factory, ctx=dict(read=True)))
    S.check(e is None, 'the rendered value is refused')


@obligation('operation', bounds='all parameters of an operation: query (also array), header, path, form or body (with a read-only property), in place or by $ref, required or not; options minimal_parameter and max_parameter, a template, an exclusion; every random outcome; the operation is called with the result',
            cases=[dict(body=b, ref=r) for b in (False, True) for r in (False, True)])
def operation(S, body, ref):
    m = S.int('m', -2, 2)
    ps = [{'name': 'q', 'in': 'query', 'type': 'integer', 'minimum': m, 'maximum': 2, 'required': S.choice('q-req', [False, True])},
          {'name': 'p', 'in': 'path', 'type': 'string', 'required': True, 'minLength': 1, 'maxLength': 1}]
    if body:
        ps.append({'name': 'b', 'in': 'body', 'required': S.choice('b-req', [False, True]),
                   'schema': {'type': 'object', 'required': ['n'], 'properties': {'id': {'type': 'integer', 'readOnly': True}, 'n': {'type': 'array', 'items': {
                       'type': 'object', 'properties': {'k': {'type': 'boolean', 'readOnly': True}, 'l': {'type': 'boolean'}}}, 'maxItems': 1}}}})
    else:
        ps.append({'name': 'f', 'in': 'formData', 'type': 'boolean'})
        ps.append({'name': 'a', 'in': 'query', 'type': 'array', 'items': {'type': 'boolean'}, 'minItems': 1, 'maxItems': 1, 'collectionFormat': 'multi'})
    top = {}
    use = ps
    if ref:
        top['parameters'] = dict(('P%d' % i, p) for i, p in enumerate(ps))
        use = [{'$ref': '#/parameters/P%d' % i} for i in range(len(ps))]
    a = op_app(use, '/p/{p}', 'post', top=top)
    Source(S)
    r = Renderer()
    opt = r.default()
    mode = S.choice('mode', ['any', 'minimal', 'max', 'template', 'exclude'])
    opt['minimal_parameter'], opt['max_parameter'] = mode == 'minimal', mode == 'max'
    if mode == 'template':
        opt['parameter_template'] = {'p': 'T'}
    out = r.render_all(a.op['theOp'], opt=opt, exclude=['q'] if mode == 'exclude' and not ps[0]['required'] else [])
    names = [p['name'] for p in ps]
    must = [p['name'] for p in ps if p.get('required')]
    S.check(S.all(*[n in names for n in out]), 'an undeclared parameter is rendered')
    S.check(S.all(*[n in out for n in (names if mode == 'max' else must)]), 'a parameter is missing')
    if mode == 'minimal':
        S.check(sorted(out) == sorted(must), 'more than the required parameters')
    elif mode == 'template':
        S.check(out['p'] == 'T', 'the template is not used')
    elif mode == 'exclude':
        S.check('q' not in out or ps[0]['required'], 'an excluded parameter is rendered')
    for p in ps:
        if p['name'] in out and not body:
            S.check(ok(S, p, out[p['name']]), 'a rendered argument does not meet its definition')
    e, x = S.fn_raises(Exception, lambda: a.op['theOp'](**out))
    S.check(e is None, 'the operation refuses the rendered arguments')
    e, _ = S.fn_raises(Exception, lambda: x[0].prepare(scheme='http'))
    S.check(e is None, 'the request with the rendered arguments cannot be prepared')
