"""C33 descriptions in YAML and JSON are equivalent"""
import json
from symx.api import obligation
from pyswagger import App
from pyswagger.getter import DictGetter
from harness.fields import equal
from harness.util import doc

STUBS = 'the texts come from a DictGetter; PyYAML itself is executed symbolically'


def text_app(text):
    return App.load('http://h/x', getter=DictGetter(['http://h/x'], {'http://h/x': text}))


def head(s):
    return "swagger: '2.0'\ninfo: {title: t, version: '1'}\nhost: h.x\nbasePath: /b\n" + s


def both(S, text, d):
    """the description in YAML is the same as that of the dict"""
    e, a = S.fn_raises(Exception, text_app, text)
    S.check(not e, 'a description in YAML is not loaded')
    b = text_app(json.dumps(d)) if not isinstance(d, str) else text_app(d)
    S.check(equal(S, a.raw, b.raw), 'the description in YAML differs from the one in JSON')
    S.check(sorted(a.raw.definitions or {}) == sorted(b.raw.definitions or {}), 'other names')
    return a


def plain(S, tag, n, chars):
    """a name which is a plain scalar"""
    k = S.str(tag, n, n, chars)
    S.assume(not k.startswith('-') and not k == '~' and not k == '=' and not k == '.' * n)
    return k


NAMES = {
    'definitions': (lambda k: 'paths: {}\ndefinitions:\n  %s:\n    type: string\n' % k, lambda k: doc({}, definitions={k: {'type': 'string'}})),
    'properties': (lambda k: 'paths: {}\ndefinitions:\n  X:\n    properties:\n      a: {type: string}\n      %s: {type: integer}\n' % k,
                   lambda k: doc({}, definitions={'X': {'properties': {'a': {'type': 'string'}, k: {'type': 'integer'}}}})),
    'responses': (lambda k: 'paths:\n  /p:\n    get:\n      responses:\n        %s: {description: d}\n        default: {description: e}\n' % k,
                  lambda k: doc({'/p': {'get': {'responses': {k: {'description': 'd'}, 'default': {'description': 'e'}}}}})),
    'example': (lambda k: 'paths: {}\ndefinitions:\n  X:\n    example:\n      - %s: [1]\n' % k, lambda k: doc({}, definitions={'X': {'example': [{k: [1]}]}})),
    'shared': (lambda k: 'paths: {}\nresponses:\n  %s: {description: d}\nparameters:\n  %s: {name: n, in: query, type: string}\n' % (k, k),
               lambda k: doc({}, responses={k: {'description': 'd'}}, parameters={k: {'name': 'n', 'in': 'query', 'type': 'string'}})),
}


@obligation('names', bounds='names of up to 3 plain characters of "0189onyesxE.~" (numbers, booleans, null among them) of definitions, properties, responses, example keys, shared parameters',
            cases=[dict(where=w, n=n) for w in sorted(NAMES) for n in (1, 2)] + [dict(where='properties', n=3)],
            thorough=[dict(where=w, n=3) for w in sorted(NAMES)], stubs=STUBS)
def names(S, where, n):
    k = plain(S, 'k', n, '0189onyesxE.~' if n < 3 else '01yesE.')
    S.assume(where != 'properties' or not k == 'a')
    t, d = NAMES[where]
    a = both(S, head(t(k)), d(k))
    a.prepare()
    if where == 'responses':
        S.check(k in a.root.paths['/p'].get.responses and len(a.root.paths['/p'].get.responses) == 2, 'the response is lost in the preparation')


WORDS = ['null', 'Null', 'NULL', 'true', 'False', 'TRUE', 'off', 'Yes', '1.5', '-7', '1e3', '1.e+3', '0x1F', '0b11', '017', '1_0', '.inf', '.NaN', '-.Inf', '2001-01-02', '9001-11-30', '1:30', '190:20:30.15']


@obligation('words', bounds='names written like null, booleans, numbers in every notation or dates (23 of them), and the same with one more plain character "a01e." behind; of definitions, properties, responses, example keys, shared parameters',
            cases=[dict(where=w) for w in sorted(NAMES)], stubs=STUBS)
def words(S, where):
    k = S.choice('word', WORDS)
    if S.choice('more', [False, True]):
        k = k + S.str('c', 1, 1, 'a01e.')
    t, d = NAMES[where]
    a = both(S, head(t(k)), d(k))
    if where == 'definitions':
        a.prepare()
        S.check(a.resolve('#/definitions/' + k).type == 'string', 'the definition is not found')


@obligation('status', bounds='a response for every status code 100..599 given as number in YAML or in a dict, and its use for a response with that status',
            cases=[dict(how=h) for h in ('yaml', 'dict')], stubs=STUBS)
def status(S, how):
    code = S.int('code', 100, 599)
    k = str(code)
    if how == 'yaml':
        a = text_app(head('paths:\n  /p:\n    get:\n      operationId: o\n      responses:\n        %s: {description: d, schema: {type: integer}}\n        default: {description: e}\n' % k))
    else:
        a = text_app(doc({'/p': {'get': {'operationId': 'o', 'responses': {code: {'description': 'd', 'schema': {'type': 'integer'}}, 'default': {'description': 'e'}}}}}))
    a.prepare()
    rs = a.op['o'].responses
    S.check(len(rs) == 2 and k in rs, 'the response is not found under its code')
    S.check(rs[k].description == 'd', 'another response is found under the code')
    _, resp = a.op['o']()
    resp.apply_with(status=code, raw='7', header={'Content-Type': 'application/json'})
    S.check(resp.data == 7, 'the response is not decoded by the definition for its status')


@obligation('dates', bounds='defaults looking like dates and times (years 0001, 1001, ... 9001, months 1, 2, 9, 30 days), for texts, dates and date-times, and in enumerations',
            cases=[dict(where=w) for w in ('default', 'enum', 'date', 'title')], stubs=STUBS)
def dates(S, where):
    y, m, d = S.str('y', 1, 1, [(48, 57)]), S.str('m', 1, 1, '129'), S.str('d', 2, 2, '0123')
    S.assume(not d == '00' and not d.startswith('3'))
    t = y + '001-0' + m + '-' + d
    if where == 'default':
        t = t + S.choice('time', ['', 'T10:20:30Z', ' 10:20:30.5 +01:00', 't1:2:03'])
    x = {'default': {'type': 'string', 'default': t}, 'enum': {'type': 'string', 'enum': [t, 'x']}, 'date': {'type': 'string', 'format': 'date', 'default': t}, 'title': {'title': t}}[where]
    body = ''.join('    %s: %s\n' % (k, v if not isinstance(v, list) else '[' + ', '.join(v) + ']') for k, v in sorted(x.items()))
    a = both(S, head('paths: {}\ndefinitions:\n  X:\n' + body), doc({}, definitions={'X': x}))
    S.check(equal(S, text_app(a.raw.dump()).raw, a.raw), 'the dump is another description')


@obligation('values', bounds='integers -20..20, booleans, null and quoted texts of up to 2 characters of "a0\\"\'\\\\:# é" as values in YAML, in block and flow style', cases=[dict(style=s, kind=k, n=2) for s in ('block', 'flow') for k in ('int', 'bool', 'null', 'double', 'single')],
            thorough=[dict(style=s, kind=k, n=3) for s in ('block', 'flow') for k in ('double', 'single')], stubs=STUBS)
def values(S, style, kind, n):
    if kind == 'int':
        v = S.int('v', -20, 20)
        t = str(v)
    elif kind == 'bool':
        v = S.bool('v')
        t = 'true' if v else 'false'
    elif kind == 'null':
        v, t = None, 'null'
    else:
        v = S.str('v', n, 0, 'a0"\'\\:# \u00e9')
        t = json.dumps(v) if kind == 'double' else "'" + v.replace("'", "''") + "'"
    d = doc({}, definitions={'X': {'default': v, 'example': [v, {'k': v}]}})
    if style == 'block':
        text = head('paths: {}\ndefinitions:\n  X:\n    default: %s\n    example:\n    - %s\n    - k: %s\n' % (t, t, t))
    else:
        text = head('paths: {}\ndefinitions: {X: {default: %s, example: [%s, {k: %s}]}}\n' % (t, t, t))
    both(S, text, d)


@obligation('bytes', bounds='a description as UTF-8 bytes, in JSON or YAML, with a text and a name of one character each of all that are printable in YAML and not blank', cases=[dict(kind=k) for k in ('json', 'yaml')], stubs=STUBS)
def bytes_(S, kind):
    every = [(0x23, 0x7e), (0xa1, 0xd7ff), (0xe000, 0xfefe), (0xff00, 0xfffd), (0x10000, 0x10ffff)]
    t, k = S.str('t', 1, 1, every), S.str('k', 1, 1, every)
    for c in (t, k):
        S.assume(not c == '"' and not c == '\\' and not c == '\u2028' and not c == '\u2029')
    d = doc({}, definitions={'X': {'title': t, 'properties': {k: {'type': 'string'}}}})
    if kind == 'json':
        text = '{"swagger": "2.0", "info": {"title": "t", "version": "1"}, "paths": {}, "definitions": {"X": {"title": "' + t + '", "properties": {"' + k + '": {"type": "string"}}}}}'
    else:
        text = head('paths: {}\ndefinitions: {X: {title: "' + t + '", properties: {"' + k + '": {type: string}}}}\n')
    e, a = S.fn_raises(Exception, text_app, text.encode('utf-8'))
    S.check(not e, 'a description as bytes is not loaded')
    x = a.raw.definitions['X']
    S.check(S.same(x.title, t), 'a text is changed')
    S.check(S.same(list(x.properties), [k]), 'a name is changed')


@obligation('json', bounds='a description in JSON after a line break, a blank or a comment, with a text of up to 3 characters of a set up to U+00FF but control characters', cases=[dict(start=s) for s in ('\n', ' ', '# c\n', '---\n', '')], stubs=STUBS)
def json_(S, start):
    d = doc({}, definitions={'X': {'default': S.str('t', 3, 0, ' \u00ffa"\\/:{'), 'type': 'string'}})
    text = json.dumps(d)
    both(S, start + text, text)


@obligation('flow', bounds='a whole description in flow style (not JSON: plain and single-quoted names), after a line break, blanks, a comment or a document start; a text of up to 2 characters and a number -20..20 in it',
            cases=[dict(start=s) for s in ('\n', ' ', '\n  ', '# c\n', '---\n', '--- ')], stubs=STUBS)
def flow(S, start):
    t = S.str('t', 2, 0, ' a":{[')
    n = S.int('n', -20, 20)
    text = "{swagger: '2.0', 'info': {title: t, version: '1'}, host: h.x, basePath: /b, paths: {}, definitions: {X: {type: string, default: '%s'}, Y: {type: integer, maximum: %d}}}" % (t, n)
    if start:
        text = start + text
    both(S, text, doc({}, definitions={'X': {'type': 'string', 'default': t}, 'Y': {'type': 'integer', 'maximum': n}}))
