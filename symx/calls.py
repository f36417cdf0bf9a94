"""what the rewritten source calls instead of the native operations"""
import functools
import types

from . import core
from .core import Unsupported
from . import fmt
from .containers import SDict, SSet, SFrozen, SETS, lookup, _MISSING, key_eq, key_sym
from .values import (Sym, SymStr, SymBytes, SymSeq, SymInt, SymBool, SymFloat, is_sym, has_sym,
                     X_branch, b_or, b_not, b_and, wrap, sx_str, sx_repr, to_int, to_float,
                     parse_int, truth, mk_str, mk_bytes, seq_index, zint, encode, decode,
                     concretise_str, codes, SymFloat)

_FT = types.FunctionType
_MT = types.MethodType
_BT = types.BuiltinFunctionType
_MD = type(str.lower)
_MW = type('a'.__len__)
_WD = type(str.__len__)
_CMD = type(dict.__dict__['fromkeys'])


def SX_type(x):
    t = x.__class__ if is_sym(x) else type(x)
    return SDict if t is dict else SSet if t is set else SFrozen if t is frozenset else t


def SX_class(x):
    t = x.__class__
    return SDict if t is dict else SSet if t is set else SFrozen if t is frozenset else t


# ---- models of builtin functions
def m_type(*a, **k):
    if len(a) == 1 and not k:
        return SX_type(a[0])
    return type(*a, **k)


def m_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if is_sym(x):
            return decode(x, *a[1:], **k)
        return str(*a, **k)
    return sx_str(x)


def m_repr(x):
    return sx_repr(x)


def m_int(*a, **k):
    if not a or not is_sym(a[0]):
        if a and not k and len(a) == 1 and hasattr(type(a[0]), '__int__') and hasattr(type(a[0]).__int__, '__code__'):
            return type(a[0]).__int__(a[0])
        return int(*a, **k)
    if isinstance(a[0], (str, bytes)):
        return parse_int(*a, **k)
    if len(a) > 1:
        raise TypeError("int() can't convert non-string with explicit base")
    return to_int(a[0])


def m_float(*a):
    if not a or not is_sym(a[0]):
        return float(*a)
    x = a[0]
    if isinstance(x, (str, bytes)):
        return float_of_text(x)
    return to_float(x)


def float_of_text(s):
    """float(str): exact for texts without exponent, otherwise enumerated"""
    s = s.strip()
    if not is_sym(s):
        return float(s)
    import z3
    ex = core.EX
    cs = list(s.cs)
    neg = False
    from .values import z_eq, _plain_digit, _digit_val, in_ranges, mk_bool
    if cs and X_branch(z_eq(cs[0], 43, 45)):
        neg = X_branch(z_eq(cs[0], 45))
        cs = cs[1:]
    if cs and X_branch(b_and(*[_plain_digit(c, 10) for c in cs])) and len(cs) < 16:
        tot = z3.IntVal(0)
        for c in cs:
            tot = tot * 10 + _digit_val(c, 10)
        from .values import SymFloat
        if X_branch(mk_bool(tot == 0)):
            return -0.0 if neg else 0.0
        return SymFloat(z3.ToReal(-tot if neg else tot), 0)
    if not cs:
        raise ValueError('could not convert string to float')
    return float(concretise_str(s))


def m_bool(*a):
    if a and is_sym(a[0]):
        return truth(a[0])
    return bool(*a)


def m_len(x):
    f = getattr(type(x), '__len__', None)
    return len(x)


def m_ord(c):
    if is_sym(c):
        if len(c.cs) != 1:
            raise TypeError('ord() expected a character')
        v = c.cs[0]
        return v if isinstance(v, int) else SymInt(v)
    return ord(c)


def m_chr(i):
    if is_sym(i):
        if core.EX.branch(zbad_chr(i)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk_str([zint(i)])
    return chr(i)


def zbad_chr(i):
    import z3
    e = zint(i)
    return z3.Or(e < 0, e > 0x10ffff)


def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if is_sym(x):
        if isinstance(x, str):
            if len(a) < 2 and 'encoding' not in k:
                raise TypeError('string argument without an encoding')
            return encode(x, *a[1:], **k)
        if isinstance(x, bytes):
            return x
        return bytes(x.__index__())
    if isinstance(x, (list, tuple)) and has_sym(x):
        return mk_bytes([zint(v) if is_sym(v) else v for v in x])
    return bytes(*a, **k)


def m_list(*a):
    return list(*a)


def wrap_fn(f):
    if f is None or type(f) in (_FT, _MT):
        return f
    return lambda *a, **k: SX_call(f, *a, **k)


def m_map(f, *its):
    return map(wrap_fn(f), *its)


def m_filter(f, it):
    return filter(wrap_fn(f), it)


def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrap_fn(key), reverse=bool(reverse))


def m_min(*a, **k):
    if 'key' in k:
        k['key'] = wrap_fn(k['key'])
    return min(*a, **k)


def m_max(*a, **k):
    if 'key' in k:
        k['key'] = wrap_fn(k['key'])
    return max(*a, **k)


def m_reduce(f, it, *init):
    return functools.reduce(wrap_fn(f), it, *init)


def attr_names(o):
    s = set(dir(type(o)))
    d = getattr(o, '__dict__', None)
    if d:
        s.update(d)
    return sorted(s)


def sym_attr(o, name):
    """fork on which attribute a symbolic name is; None if no existing one"""
    n = len(name)
    for c in attr_names(o):
        if len(c) == n and X_branch(name == c):
            return c
    return None


def m_getattr(o, name, *d):
    if is_sym(name):
        c = sym_attr(o, name)
        if c is None:
            if d:
                return d[0]
            raise AttributeError(name)
        name = c
    return getattr(o, name, *d)


def m_hasattr(o, name):
    if is_sym(name):
        name = sym_attr(o, name)
        if name is None:
            return False
    return hasattr(o, name)


def m_setattr(o, name, v):
    if is_sym(name):
        raise Unsupported('setattr with a symbolic name')
    return setattr(o, name, v)


def m_isinstance(o, c):
    if is_sym(o):
        return isinstance(o, c)
    return isinstance(o, c)


def m_hash(x):
    return hash(x)


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_sum(it, *st):
    return sum(it, *st)


def m_callable(x):
    return callable(x)


def m_iter(*a):
    return iter(*a)


def m_from_bytes(b, byteorder, signed=False):
    if not is_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    import z3
    cs = list(b.cs)
    if byteorder == 'little':
        cs.reverse()
    if signed:
        raise Unsupported('int.from_bytes signed')
    tot = z3.IntVal(0)
    for c in cs:
        tot = tot * 256 + c
    tot = z3.simplify(tot)
    core.EX.set_digits(tot, 256, [z3.IntVal(c) if isinstance(c, int) else c for c in cs])
    return SymInt(tot)


MODELS = {}


def _reg(f, m):
    MODELS[id(f)] = (f, m)


for _f, _m in [(type, m_type), (str, m_str), (repr, m_repr), (int, m_int), (float, m_float),
               (bool, m_bool), (ord, m_ord), (chr, m_chr), (bytes, m_bytes), (map, m_map),
               (filter, m_filter), (sorted, m_sorted), (min, m_min), (max, m_max),
               (functools.reduce, m_reduce), (getattr, m_getattr), (hasattr, m_hasattr),
               (setattr, m_setattr), (any, m_any)]:
    _reg(_f, _m)

# native functions that only move their arguments around
STRUCTURAL = {id(f) for f in [len, isinstance, issubclass, list, tuple, enumerate, zip, reversed,
                              iter, next, id, print, callable, all, any, abs, divmod, range, round,
                              sum, slice, vars, hash]}


def SX_call(f, /, *a, **k):
    t = type(f)
    if t is _FT or t is _MT:
        return f(*a, **k)
    m = MODELS.get(id(f))
    if m is not None and m[0] is f:
        return m[1](*a, **k)
    if t is functools.partial:
        kk = dict(f.keywords)
        kk.update(k)
        return SX_call(f.func, *(f.args + a), **kk)
    if t is _BT:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            return native_method(f, s, f.__name__, a, k)
        return guarded(f, a, k)
    if t is _MW:
        return native_method(f, f.__self__, f.__name__, a, k)
    if t is _MD or t is _WD:
        if a and is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and type(a[0]) in (str, bytes) and f.__objclass__ in (str, bytes):
            return native_method(functools.partial(f, a[0]), a[0], f.__name__, a[1:], k)
        return guarded(f, a, k)
    if isinstance(f, type) and not f.__flags__ & 512 and f is not object and not issubclass(f, BaseException):
        return guarded(f, a, k)     # a type of the interpreter
    return f(*a, **k)


def guarded(f, a, k):
    if id(f) in STRUCTURAL:
        return f(*a, **k)
    if any(is_sym(x) for x in a) or any(is_sym(x) for x in k.values()):
        try:
            return f(*a, **k)
        except TypeError as e:
            raise Unsupported('native %s with a symbolic argument: %s' % (
                getattr(f, '__qualname__', f), core.safe_str(e)))
    return f(*a, **k)


def native_method(f, s, name, a, k):
    ts = type(s)
    if ts is str or ts is bytes:
        if name == 'join':
            parts = list(a[0])
            if any(is_sym(p) for p in parts):
                return wrap(s).join(parts)
            return s.join(parts)
        if name == 'format':
            return fmt.format_(s, a, k)
        if any(is_sym(x) or (type(x) is tuple and has_sym(x)) for x in a) or \
                any(is_sym(x) for x in k.values()):
            if name.startswith('__') and name.endswith('__'):
                r = getattr(wrap(s), name)(*a)
                return r
            m = getattr(wrap(s), name, None)
            if m is None:
                raise Unsupported('%s.%s' % (ts.__name__, name))
            return m(*a, **k)
        if name == 'translate' and a and not isinstance(a[0], (str, bytes)) and has_sym(a[0]):
            raise Unsupported('translate table')
        return f(*a, **k)
    if isinstance(s, type):
        if name == 'from_bytes' and issubclass(s, int):
            return m_from_bytes(*a, **k)
        if name == 'fromhex' and a and is_sym(a[0]):
            return m_fromhex(a[0])
        if name == 'fromkeys':
            return SDict.fromkeys(*a)
        return guarded(f, a, k)
    if issubclass(ts, dict) and SDict not in ts.__mro__:
        if a and key_sym(a[0]):
            if name in ('get', '__getitem__', 'pop', '__contains__', 'setdefault'):
                v = lookup(s, a[0])
                if name == '__contains__':
                    return v is not _MISSING
                if v is not _MISSING:
                    if name == 'pop':
                        raise Unsupported('pop of a symbolic key from a native dict')
                    return v
                if name == 'get':
                    return a[1] if len(a) > 1 else None
                if name == 'pop' and len(a) > 1:
                    return a[1]
                if name in ('pop', '__getitem__'):
                    raise KeyError(a[0])
            raise Unsupported('native dict.%s with a symbolic key' % name)
        return f(*a, **k)
    if issubclass(ts, list):
        if name == 'sort' and 'key' in k:
            k = dict(k, key=wrap_fn(k['key']))
        return f(*a, **k)
    return f(*a, **k)


def m_fromhex(s):
    raise Unsupported('bytes.fromhex')


def contains(x, c):
    """x in c -> bool or SymBool"""
    if is_sym(c):
        if isinstance(c, (str, bytes)):
            if isinstance(c, str) and not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand, not %s" % type(x).__name__)
            return c.contains(x)
        raise TypeError("argument of type '%s' is not iterable" % c.__class__.__name__)
    t = type(c)
    if t is str or t is bytes or t is bytearray:
        if is_sym(x):
            return wrap(c).contains(x)
        return x in c
    if SDict in t.__mro__:
        if t.__contains__ is SDict.__contains__:
            return c.contains(x)
        return x in c
    if t in SETS:
        return c.contains(x)
    if issubclass(t, dict) or issubclass(t, (set, frozenset)) or t in (type({}.keys()),):
        if key_sym(x):
            return b_or(*[_eqb(y, x) for y in c])
        return x in c
    if t in (list, tuple):
        if is_sym(x) or any(is_sym(y) for y in c):
            out = []
            for y in c:
                if y is x:
                    return True
                r = _eqb(y, x)
                if r is True:
                    return True
                out.append(r)
            return b_or(*out)
        return x in c
    f = getattr(t, '__contains__', None)
    return x in c


def _eqb(a, b):
    r = a == b
    if isinstance(r, bool) or type(r) is SymBool:
        return r
    return truth(r)


def SX_in(x, c):
    return contains(x, c)


def SX_notin(x, c):
    return b_not(contains(x, c))


def SX_is(a, b):
    if type(a) is SymBool and isinstance(b, bool) and not is_sym(b):
        return a == b
    if type(b) is SymBool and isinstance(a, bool) and not is_sym(a):
        return b == a
    return a is b


def SX_isnot(a, b):
    return b_not(SX_is(a, b))


def SX_getitem(o, i):
    t = type(o)
    if is_sym(i):
        if t in (list, tuple) or issubclass(t, (list, tuple)):
            if type(i) in (SymInt, SymBool):
                return o[seq_index(i, len(o))]
        elif t in (str, bytes):
            return wrap(o)[i]
        elif issubclass(t, dict) and SDict not in t.__mro__:
            v = lookup(o, i)
            if v is _MISSING:
                raise KeyError(i)
            return v
    elif type(i) is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
        from .values import idx_slice
        return o[idx_slice(i)]
    elif t is dict and type(i) is tuple and key_sym(i):
        v = lookup(o, i)
        if v is _MISSING:
            raise KeyError(i)
        return v
    return o[i]


def SX_dict(*pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def SX_dictcomp(it):
    d = SDict()
    for k, v in it:
        d[k] = v
    return d


def SX_set(it):
    return SSet(it)


def SX_mod(a, b):
    if isinstance(a, str):
        return fmt.mod(a, b)
    if isinstance(a, bytes):
        return fmt.bytes_mod(a, b)
    return a % b


def SX_fstr(*parts):
    if all(not is_sym(p) and isinstance(p, str) for p in parts):
        return ''.join(parts)
    plan = []
    for p in parts:
        plan.append(p)
    from .values import fmt_concat
    ps = [p if isinstance(p, str) else fmt.format_value(*p) for p in plan]
    if not any(is_sym(p) for p in ps):
        return ''.join(ps)
    return SymStr(thunk=lambda: fmt_concat(*ps))
