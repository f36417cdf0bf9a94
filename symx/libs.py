"""the library modules as the instrumented code sees them: instrumented copies of the
standard library of the PyPy under test, or small models of C code"""
import importlib
import os
import sys
import types

import z3

from . import core, calls, sre, jsonm
from .core import Unsupported
from .containers import SDict, SSet, SOrdered, SDefault, SCounter
from .instrument import clone, MODULES, load
from .values import (is_sym, has_sym, SymStr, SymBytes, SymInt, SymBool, SymFloat, X_branch, mk_str,
                     mk_bytes, mk_int, mk_bool, codes, encode, decode, fmt_concat, wrap, b_or, b_and, c_eq,
                     in_ranges, zint, sx_str, concretise_str, zc)

PYLIB = '/usr/lib/pypy3.9'
SITE = '/opt/venv/lib/pypy3.9/site-packages'


def proxy(name, native, **over):
    """a module with the attributes of a native one, some replaced"""
    m = types.ModuleType(name)
    for k in dir(native):
        if not (k.startswith('__') and k.endswith('__') and k not in ('__all__', '__doc__')):
            try:
                setattr(m, k, getattr(native, k))
            except Exception:
                pass
    for k, v in over.items():
        setattr(m, k, v)
    MODULES[name] = m
    return m


def stub(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    MODULES[name] = m
    return m


def from_native(name, native, names=None):
    m = proxy(name, native)
    return m


# ---------------------------------------------------------------- urllib.parse
_SAFE = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~')
from .values import _ranges


def hexd(v, upper=True):
    """the two hex digit codes of a byte"""
    out = []
    for d in ((v / 16), (v % 16)):
        out.append(z3.simplify(z3.If(d < 10, d + 48, d + (55 if upper else 87))))
    return out


def quote_from_bytes(bs, safe='/'):
    if not isinstance(bs, (bytes, bytearray)):
        raise TypeError('quote_from_bytes() expected bytes')
    if isinstance(safe, str):
        safe = encode(safe, 'ascii', 'ignore') if is_sym(safe) else safe.encode('ascii', 'ignore')
    if is_sym(safe):
        raise Unsupported('quote with a symbolic safe set')
    ok = _ranges(_SAFE | {c for c in safe if c < 128})
    out = []
    for c in codes(bs):
        if X_branch(in_ranges(c, ok)):
            out.append(c)
        elif isinstance(c, int):
            out.extend(map(ord, '%{:02X}'.format(c)))
        else:
            out += [37] + hexd(c)
    return mk_str(out)


def unquote_to_bytes(s):
    if not len(s):
        s.split
        return b''
    if isinstance(s, str):
        s = encode(s) if is_sym(s) else s.encode('utf-8')
    if not is_sym(s):
        import urllib.parse
        return urllib.parse.unquote_to_bytes(s)
    from .values import _plain_digit, _digit_val
    cs = s.cs
    out, i = [], 0
    while i < len(cs):
        if X_branch(c_eq(cs[i], 37)) and i + 2 < len(cs) + 0 and \
                X_branch(b_and(_plain_digit(cs[i + 1], 16), _plain_digit(cs[i + 2], 16))):
            v = _digit_val(cs[i + 1], 16) * 16 + _digit_val(cs[i + 2], 16)
            out.append(v if isinstance(v, int) else z3.simplify(v))
            i += 3
        else:
            out.append(cs[i])
            i += 1
    return mk_bytes(out)


class NoCache(object):
    def get(self, k, d=None): return d
    def __setitem__(self, k, v): pass
    def __len__(self): return 0
    def clear(self): pass


def p_urllib_parse():
    load('urllib')
    m = clone('urllib.parse', PYLIB + '/urllib/parse.py')
    m._parse_cache = NoCache()
    m.quote_from_bytes = quote_from_bytes
    m.unquote_to_bytes = unquote_to_bytes
    return m


# ---------------------------------------------------------------- time
def _civil(days):
    """days since 1970-01-01 -> y, m, d as terms (Hinnant), forking on nothing"""
    z = days + 719468
    era = z / 146097
    doe = z % 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    d = doy - (153 * mp + 2) / 5 + 1
    m = z3.If(mp < 10, mp + 3, mp - 9)
    return y + z3.If(m <= 2, 1, 0), m, d


def gmtime(t=None):
    import time
    if not is_sym(t):
        return time.gmtime(*([] if t is None else [t]))
    ex = core.EX
    if isinstance(t, float):
        e = z3.ToInt(t.e)          # floor, as the C code does
    else:
        e = zint(t)
    if ex.branch(z3.Or(e < -62135596800, e > 253402300799)):
        raise Unsupported('timestamp outside of years 1..9999')
    # named variables keep the terms small
    s, days = ex.fresh('sec'), ex.fresh('day')
    ex.define(z3.And(e == days * 86400 + s, s >= 0, s < 86400))
    y, m, d = [ex.fresh(n) for n in ('y', 'm', 'd')]
    cy, cm, cd = _civil(days)
    ex.define(z3.And(y == cy, m == cm, d == cd))
    vals = [mk_int(y), mk_int(m), mk_int(d), mk_int(s / 3600), mk_int((s / 60) % 60), mk_int(s % 60),
            mk_int((days + 3) % 7), 1, 0]
    return StructTime(vals)


class StructTime(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


def p_time():
    import time
    os.environ['TZ'] = 'UTC'
    time.tzset()
    return proxy('time', time, gmtime=gmtime, localtime=gmtime)


def modf(x):
    import math
    if not is_sym(x):
        return math.modf(x)
    x = x if isinstance(x, float) else x._f()
    t = x.trunc()
    ti = zint(t)
    f = SymFloat(x.e - z3.ToReal(ti), x.k)
    return f, SymFloat(z3.ToReal(ti), 0)


def p_math():
    import math
    return proxy('math', math, modf=modf,
                 floor=lambda x: x.__floor__() if is_sym(x) else math.floor(x),
                 ceil=lambda x: x.__ceil__() if is_sym(x) else math.ceil(x),
                 isnan=lambda x: False if is_sym(x) else math.isnan(x),
                 isinf=lambda x: False if is_sym(x) else math.isinf(x),
                 isfinite=lambda x: True if is_sym(x) else math.isfinite(x))


# ---------------------------------------------------------------- binascii
def _b64c(v):
    if isinstance(v, int):
        return b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'[v]
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return _b64c(v.as_long())
    return z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, 43, 47))))


def b2a_base64(b, newline=True):
    import binascii
    if not is_sym(b):
        return binascii.b2a_base64(b, newline=newline)
    if not isinstance(b, bytes):
        raise TypeError('a bytes-like object is required')
    cs = [zc(c) for c in b.cs]
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i:i + 3]
        n = len(g)
        g = g + [z3.IntVal(0)] * (3 - n)
        q = [g[0] / 4, (g[0] % 4) * 16 + g[1] / 16, (g[1] % 16) * 4 + g[2] / 64, g[2] % 64]
        out += [_b64c(x) for x in q[:n + 1]] + [61] * (3 - n)
    return mk_bytes(out + ([10] if newline else []))


def _b64v(c):
    """the six bits a character of the base64 alphabet stands for"""
    if isinstance(c, int):
        return b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'.index(c)
    return z3.If(c >= 97, c - 71, z3.If(c >= 65, c - 65, z3.If(c >= 48, c + 4, z3.If(c == 43, 62, 63))))


_B64 = [(65, 90), (97, 122), (48, 57), (43, 43), (47, 47)]


def a2b_base64(b):
    import binascii
    if not is_sym(b):
        return binascii.a2b_base64(b)
    vals, pads = [], 0
    for c in b.cs:
        if X_branch(mk_bool(in_ranges(zc(c), _B64))):
            if pads:
                raise Unsupported('base64 text after its padding')
            vals.append(z3.simplify(zc(_b64v(c) if not isinstance(c, int) else _b64v(c))))
        elif X_branch(mk_bool(zc(c) == 61)):
            pads += 1
    if len(vals) % 4 == 1 or (len(vals) + pads) % 4 or pads > 2:
        raise binascii.Error('Incorrect padding')
    out = []
    for i in range(0, len(vals), 4):
        g = vals[i:i + 4]
        n = len(g)
        g = g + [z3.IntVal(0)] * (4 - n)
        q = [g[0] * 4 + g[1] / 16, (g[1] % 16) * 16 + g[2] / 4, (g[2] % 4) * 64 + g[3]]
        out += [z3.simplify(x) for x in q[:n - 1]]
    return mk_bytes(out)


def p_binascii():
    import binascii
    return proxy('binascii', binascii, b2a_base64=b2a_base64, a2b_base64=a2b_base64,
                 hexlify=lambda b: encode(b.hex()) if is_sym(b) else binascii.hexlify(b))


# ---------------------------------------------------------------- io / codecs
class BytesIO(object):
    KIND = (bytes, bytearray)

    def __init__(self, b=b''):
        self.cs = list(codes(b))
        self.pos = 0
        self.closed = False

    def _mk(self, cs): return mk_bytes(cs)

    def _open(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, b):
        self._open()
        if not isinstance(b, self.KIND):
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        c = list(codes(b))
        if self.pos > len(self.cs):
            self.cs.extend([0] * (self.pos - len(self.cs)))
        self.cs[self.pos:self.pos + len(c)] = c
        self.pos += len(c)
        return len(c)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def getvalue(self):
        self._open()
        return self._mk(self.cs)

    def read(self, n=-1):
        self._open()
        e = len(self.cs) if n is None or n < 0 else self.pos + n
        r = self._mk(self.cs[self.pos:e])
        self.pos = max(self.pos, min(e, len(self.cs)))
        return r

    def readline(self, n=-1):
        self._open()
        i = self.pos
        while i < len(self.cs):
            i += 1
            if X_branch(c_eq(self.cs[i - 1], 10)):
                break
        return self.read(i - self.pos if n is None or n < 0 else min(n, i - self.pos))

    def readlines(self, hint=-1): return list(self)
    def __iter__(self): return self

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.cs[n:]
        return n

    def seek(self, p, w=0):
        self._open()
        self.pos = p + (0, self.pos, len(self.cs))[w]
        return self.pos

    def tell(self): return self.pos
    def close(self): self.closed = True
    def flush(self): pass
    def readable(self): return True
    writable = seekable = readable
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class StringIO(BytesIO):
    KIND = str

    def __init__(self, s='', newline='\n'):
        if newline not in ('', '\n'):
            raise Unsupported('StringIO newline')
        BytesIO.__init__(self, s or '')

    def _mk(self, cs): return mk_str(cs)


class Writer(object):
    def __init__(self, enc, stream, errors='strict'):
        self.enc, self.stream, self.errors = enc, stream, errors

    def write(self, o):
        if not isinstance(o, str):
            raise TypeError('utf_8_encode() argument 1 must be str, not %s' % type(o).__name__)
        self.stream.write(encode(o, self.enc, self.errors) if is_sym(o) else o.encode(self.enc, self.errors))


def getwriter(enc):
    import codecs
    codecs.lookup(enc)
    return lambda stream, errors='strict': Writer(enc, stream, errors)


# ---------------------------------------------------------------- os / pathlib
def p_os():
    m = proxy('os', os)

    def fspath(p):
        if is_sym(p) and isinstance(p, (str, bytes)):
            return p
        return os.fspath(p)
    m.fspath = fspath
    m.getcwd = lambda: '/'
    m.getcwdb = lambda: b'/'
    m.name = 'posix'
    m.fsencode = lambda s: encode(s) if is_sym(s) else os.fsencode(s)
    st = proxy('stat', __import__('stat'))
    clone('genericpath', PYLIB + '/genericpath.py')
    pp = clone('posixpath', PYLIB + '/posixpath.py')
    m.path = pp
    MODULES['os.path'] = pp
    pp.isfile = lambda p: False if is_sym(p) else os.path.isfile(p)
    return m


class Path(object):
    """pathlib.Path: only str() and as_uri() of a posix path"""

    def __init__(self, *a):
        p = ''
        for x in a:
            p = load('posixpath').join(p, x)
        s = wrap(p)
        root = ''
        if X_branch(s.startswith('/')):
            root = '/'
            if X_branch(s.startswith('//')) and not X_branch(s.startswith('///')):
                root = '//'
        parts = [x for x in s.split('/') if len(x) and not X_branch(wrap(x) == '.')]
        self.p = fmt_concat(root, wrap('/').join(parts)) if parts or root else '.'

    def __str__(self):
        return self.p

    def as_posix(self): return self.p

    def as_uri(self):
        if not X_branch(wrap(self.p).startswith('/')):
            raise ValueError("relative path can't be expressed as a file URI")
        return fmt_concat('file://', quote_from_bytes(encode(wrap(self.p))))


# ---------------------------------------------------------------- others
class NullLogger(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


def p_functools():
    import functools

    def lru_cache(*a, **k):
        if len(a) == 1 and callable(a[0]):
            return a[0]
        return lambda f: f
    return proxy('functools', functools, lru_cache=lru_cache, cache=lambda f: f)


def p_collections():
    import collections
    abc = load('_collections_abc')
    m = proxy('collections', collections, OrderedDict=SOrdered, defaultdict=SDefault, Counter=SCounter)
    for k in ('Mapping', 'MutableMapping', 'Sequence', 'MutableSequence', 'Iterable', 'Set', 'MutableSet',
              'Hashable', 'Callable', 'KeysView', 'ItemsView', 'ValuesView'):
        setattr(m, k, getattr(abc, k))
    m.abc = abc
    MODULES['collections.abc'] = abc
    return m


def p_collections_abc():
    m = clone('_collections_abc', PYLIB + '/_collections_abc.py')
    m.MutableMapping.register(dict)
    m.Set.register(frozenset)
    return m


def p_six():
    sys.path.append(SITE)
    try:
        import importlib.util
        spec = importlib.util.spec_from_file_location('_sx_native_six', SITE + '/six.py')
        n = importlib.util.module_from_spec(spec)
        sys.modules['_sx_native_six'] = n
        spec.loader.exec_module(n)
    finally:
        sys.path.remove(SITE)
    m = types.ModuleType('six')
    for k in dir(n):
        if k not in ('moves', '__builtins__'):
            setattr(m, k, getattr(n, k))
    mv = types.ModuleType('six.moves')
    mv.xrange = range
    mv.range = range
    mv.reduce = calls.m_reduce
    mv.map, mv.filter, mv.zip = calls.m_map, calls.m_filter, zip
    io = load('io')
    m.BytesIO, m.StringIO = io.BytesIO, io.StringIO
    mv.cStringIO = mv.StringIO = io.StringIO
    mv.input = input
    u = types.ModuleType('six.moves.urllib')
    u.parse = load('urllib.parse')

    class LazyReq(object):
        def __getattr__(self, k):
            import urllib.request
            return getattr(urllib.request, k)
    u.request = LazyReq()
    import urllib.error
    u.error = urllib.error
    mv.urllib = u
    m.moves = mv
    m.iteritems = lambda d, **k: iter(d.items(**k))
    m.iterkeys = lambda d, **k: iter(d.keys(**k))
    m.itervalues = lambda d, **k: iter(d.values(**k))
    m.b = lambda s: encode(s, 'latin-1') if is_sym(s) else s.encode('latin-1')
    m.text_type = str
    MODULES['six'] = m
    MODULES['six.moves'] = mv
    MODULES['six.moves.urllib'] = u
    MODULES['six.moves.urllib.parse'] = u.parse
    return m


def p_yaml():
    """PyYAML itself, without the C parser"""
    if not os.path.isfile(SITE + '/yaml/__init__.py'):
        raise ImportError('yaml')
    return clone('yaml', SITE + '/yaml/__init__.py', package=True)


def p_yaml_part(name):
    return lambda: clone('yaml.' + name, SITE + '/yaml/%s.py' % name)


def p_uuid():
    m = clone('uuid', PYLIB + '/uuid.py')
    return m


def p_validate_email():
    try:
        return clone('validate_email', SITE + '/validate_email.py')
    except OSError:
        raise ImportError('validate_email')


def p_json():
    m = types.ModuleType('json')
    for k in ('dumps', 'loads', 'dump', 'load', 'JSONEncoder', 'JSONDecoder', 'JSONDecodeError'):
        setattr(m, k, getattr(jsonm, k))
    m.encoder = m.decoder = m
    return m


def raiser(name):
    def f():
        raise ImportError(name)
    return f


def p_io():
    import io
    return proxy('io', io, BytesIO=BytesIO, StringIO=StringIO)


def p_codecs():
    import codecs
    return proxy('codecs', codecs, getwriter=getwriter,
                 encode=lambda s, e='utf-8', r='strict': encode(s, e, r) if is_sym(s) else codecs.encode(s, e, r),
                 decode=lambda s, e='utf-8', r='strict': decode(s, e, r) if is_sym(s) else codecs.decode(s, e, r))


def p_logging():
    import logging
    nl = NullLogger()
    return stub('logging', getLogger=lambda *a: nl, DEBUG=10, INFO=20, WARNING=30, ERROR=40,
                NullHandler=logging.NullHandler, basicConfig=lambda **k: None)


def p_imp():
    def find_module(name, path=None):
        raise ImportError(name)
    return stub('imp', find_module=find_module, load_module=find_module)


def p_urllib():
    m = types.ModuleType('urllib')
    m.__path__ = [PYLIB + '/urllib']

    def other(k):
        if k in ('request', 'error', 'response', 'robotparser'):
            return importlib.import_module('urllib.' + k)
        raise AttributeError(k)
    m.__dict__['__getattr__'] = other
    return m


def p_copy():
    import copy
    return copy


def p_warnings():
    import warnings
    return proxy('warnings', warnings, warn=lambda *a, **k: None)


def p_pathlib():
    return stub('pathlib', Path=Path, PurePosixPath=Path)


PROVIDERS = {
    're': lambda: sre,
    'json': p_json,
    'datetime': lambda: clone('datetime', PYLIB + '/datetime.py'),
    'base64': lambda: clone('base64', PYLIB + '/base64.py'),
    'uuid': p_uuid,
    'urllib': p_urllib,
    'urllib.parse': p_urllib_parse,
    'os': p_os,
    'os.path': lambda: load('os').path,
    'posixpath': lambda: load('os').path,
    'time': p_time,
    'math': p_math,
    'binascii': p_binascii,
    'io': p_io,
    'codecs': p_codecs,
    'pathlib': p_pathlib,
    'functools': p_functools,
    'collections': p_collections,
    '_collections_abc': p_collections_abc,
    'collections.abc': lambda: load('collections').abc,
    'six': p_six,
    'six.moves': lambda: load('six').moves,
    'six.moves.urllib': lambda: load('six').moves.urllib,
    'six.moves.urllib.parse': lambda: load('six').moves.urllib.parse,
    'six.moves.urllib.request': lambda: load('six').moves.urllib.request,
    'six.moves.urllib.error': lambda: load('six').moves.urllib.error,
    'logging': p_logging,
    'imp': p_imp,
    'yaml': p_yaml,
    'yaml.cyaml': raiser('yaml.cyaml'),
    '_yaml': raiser('_yaml'),
    'yaml._yaml': raiser('_yaml'),
    'validate_email': p_validate_email,
    'warnings': p_warnings,
    '_datetime': raiser('_datetime'),
    '_uuid': raiser('_uuid'),
    '_json': raiser('_json'),
    '_pypy_generic_alias': lambda: stub('_pypy_generic_alias', GenericAlias=types.GenericAlias,
                                        UnionType=type(int | str)),
    '__pypy__': raiser('__pypy__'),
    '__pypy__._pypydatetime': raiser('__pypy__'),
    'DNS': raiser('DNS'),
    'smtplib': lambda: stub('smtplib'),
    'socket': lambda: stub('socket'),
}

for _n in ('error', 'tokens', 'events', 'nodes', 'loader', 'dumper', 'reader', 'scanner', 'parser', 'composer', 'constructor',
           'resolver', 'emitter', 'serializer', 'representer'):
    PROVIDERS['yaml.' + _n] = p_yaml_part(_n)


def provide(name):
    p = PROVIDERS.get(name)
    return p() if p is not None else None
