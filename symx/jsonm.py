"""`json` for symbolic values"""
import json as _json

import z3

from .core import Unsupported
from . import core
from .containers import SDict
from .values import (is_sym, has_sym, SymStr, SymBytes, SymInt, SymBool, SymFloat, X_branch, mk_str,
                     mk_bool, codes, fmt_concat, int_str, float_str, z_eq, in_ranges, c_eq, decode,
                     parse_int, _plain_digit)

JSONDecodeError = _json.JSONDecodeError


class JSONEncoder(object):
    item_separator = ', '
    key_separator = ': '

    def __init__(self, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, sort_keys=False,
                 indent=None, separators=None, default=None):
        self.skipkeys, self.ensure_ascii, self.check_circular, self.allow_nan = skipkeys, ensure_ascii, check_circular, allow_nan
        self.sort_keys, self.indent = sort_keys, indent
        if separators is not None:
            self.item_separator, self.key_separator = separators
        elif indent is not None:
            self.item_separator = ','
        if default is not None:
            self.default = default

    def default(self, o):
        raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)

    def encode(self, o):
        return _encode(self, o)

    def iterencode(self, o, _one_shot=False):
        yield self.encode(o)


class JSONDecoder(object):
    def __init__(self, **k):
        self.k = k

    def decode(self, s):
        if not isinstance(s, str):
            raise TypeError('expected string or bytes-like object')
        return loads(s, **self.k)


def enc_str(s, ascii=True):
    if not is_sym(s):
        return _json.dumps(s, ensure_ascii=ascii)
    out = [34]
    for c in s.cs:
        if isinstance(c, int):
            out.extend(map(ord, _json.dumps(chr(c), ensure_ascii=ascii)[1:-1]))
            continue
        if not ascii and X_branch(mk_bool(c >= 127)):
            out.append(c)
            continue
        if X_branch(mk_bool(z3.And(c >= 32, c < 127, c != 34, c != 92))):
            out.append(c)
        elif X_branch(z_eq(c, 34, 92)):
            out += [92, c]
        elif X_branch(z_eq(c, 8, 9, 10, 12, 13)):
            out += [92, z3.If(c == 8, 98, z3.If(c == 9, 116, z3.If(c == 10, 110, z3.If(c == 12, 102, 114))))]
        elif X_branch(mk_bool(c < 0x10000)):
            out += [92, 117] + _hex4(c)
        else:
            n = c - 0x10000
            out += [92, 117] + _hex4(n / 1024 + 0xd800) + [92, 117] + _hex4(n % 1024 + 0xdc00)
    out.append(34)
    return mk_str(out)


def _hex4(n):
    ds = [(n / 4096) % 16, (n / 256) % 16, (n / 16) % 16, n % 16]
    return [z3.simplify(z3.If(d < 10, d + 48, d + 87)) for d in ds]


def dumps(obj, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None,
          indent=None, separators=None, default=None, sort_keys=False, **kw):
    return (cls or JSONEncoder)(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular, allow_nan=allow_nan,
                                indent=indent, separators=separators, default=default, sort_keys=sort_keys, **kw).encode(obj)


def _encode(enc, obj):
    isep, ksep, asc, skipkeys, sort_keys = enc.item_separator, enc.key_separator, enc.ensure_ascii, enc.skipkeys, enc.sort_keys
    indent = ' ' * enc.indent if isinstance(enc.indent, int) else enc.indent
    busy = []

    def nl(d=0):
        return '' if indent is None else '\n' + indent * (len(busy) + d)

    def go(o):
        t = type(o)
        if o is None:
            return 'null'
        if o is True:
            return 'true'
        if o is False:
            return 'false'
        if t is SymBool:
            return 'true' if bool(o) else 'false'
        if isinstance(o, str):
            return enc_str(o, asc)
        if isinstance(o, int):
            return int_str(o) if is_sym(o) else int.__repr__(o)
        if isinstance(o, float):
            if is_sym(o):
                return float_str(o)
            return _json.dumps(o, allow_nan=enc.allow_nan)
        if any(o is b for b in busy):
            raise ValueError('Circular reference detected')
        busy.append(o)
        if isinstance(o, (list, tuple)):
            parts = ['[']
            for i, v in enumerate(o):
                if i:
                    parts.append(isep)
                parts += [nl(), go(v)]
            parts.append((nl(-1) if len(parts) > 1 else '') + ']')
        elif isinstance(o, dict):
            parts = ['{']
            items = list(o.items())
            if sort_keys:
                items = sorted(items)
            first = True
            for k, v in items:
                if isinstance(k, str):
                    pass
                elif k is None or k is True or k is False:
                    k = {None: 'null', True: 'true', False: 'false'}[k]
                elif isinstance(k, int):
                    k = int_str(k) if is_sym(k) else int.__repr__(k)
                elif isinstance(k, float):
                    k = float_str(k) if is_sym(k) else _json.dumps(k)
                elif skipkeys:
                    continue
                else:
                    raise TypeError('keys must be str, int, float, bool or None')
                if not first:
                    parts.append(isep)
                first = False
                parts += [nl(), enc_str(k, asc), ksep, go(v)]
            parts.append((nl(-1) if len(parts) > 1 else '') + '}')
        else:
            r = enc.default(o)
            busy.pop()
            return go(r)
        busy.pop()
        return fmt_concat(*parts)
    return go(obj)


def to_sx(o):
    if isinstance(o, dict):
        d = SDict()
        for k, v in o.items():
            d[k] = to_sx(v)
        return d
    if isinstance(o, list):
        return [to_sx(v) for v in o]
    return o


def _err(msg='invalid'):
    return JSONDecodeError(msg, '', 0)


def loads(s, cls=None, object_hook=None, object_pairs_hook=None, strict=True, **kw):
    if cls is not None:
        return cls(object_hook=object_hook, object_pairs_hook=object_pairs_hook, strict=strict, **kw).decode(s)
    if any(v is not None for v in kw.values()):
        raise Unsupported('json.loads options')

    def made(pairs):
        if object_pairs_hook is not None:
            return object_pairs_hook(pairs)
        d = SDict()
        for k, v in pairs:
            d[k] = v
        return d if object_hook is None else object_hook(d)

    if isinstance(s, (bytes, bytearray)):
        s = decode(s) if is_sym(s) else s.decode('utf-8')
    elif not isinstance(s, str):
        raise TypeError('the JSON object must be str, bytes or bytearray, not %s' % type(s).__name__)
    if not is_sym(s):
        return _json.loads(s, strict=strict, object_pairs_hook=made)
    cs = s.cs
    n = len(cs)

    def ws(i):
        while i < n and X_branch(z_eq(cs[i], 32, 9, 10, 13)):
            i += 1
        return i

    def lit(i, text):
        return i + len(text) <= n and X_branch(s._at(i, tuple(map(ord, text))))

    def value(i):
        if i >= n:
            raise _err()
        c = cs[i]
        if X_branch(c_eq(c, 34)):
            return string(i + 1)
        if X_branch(c_eq(c, 123)):
            return obj(i + 1)
        if X_branch(c_eq(c, 91)):
            return arr(i + 1)
        for t, v in (('null', None), ('true', True), ('false', False)):
            if lit(i, t):
                return v, i + len(t)
        return num(i)

    def num(i):
        j = i
        neg = False
        if X_branch(c_eq(cs[j], 45)):
            neg = True
            j += 1
        st = j
        while j < n and X_branch(_plain_digit(cs[j], 10)):
            j += 1
        if j == st:
            if lit(i, 'NaN') or lit(i, 'Infinity') or lit(i, '-Infinity'):
                raise Unsupported('json NaN/Infinity')
            raise _err()
        if j > st + 1 and X_branch(c_eq(cs[st], 48)):
            j = st + 1
        isf = False
        k = j
        if k < n and X_branch(c_eq(cs[k], 46)):
            m = k + 1
            while m < n and X_branch(_plain_digit(cs[m], 10)):
                m += 1
            if m > k + 1:
                k, isf = m, True
        if k < n and X_branch(z_eq(cs[k], 69, 101)):
            m = k + 1
            if m < n and X_branch(z_eq(cs[m], 43, 45)):
                m += 1
            e0 = m
            while m < n and X_branch(_plain_digit(cs[m], 10)):
                m += 1
            if m > e0:
                k, isf = m, True
        t = mk_str(cs[i:k])
        if isf:
            if is_sym(t):
                return dec_float(t), k
            return float(t), k
        return (parse_int(t) if is_sym(t) else int(t)), k

    def string(i):
        out = []
        while True:
            if i >= n:
                raise _err()
            c = cs[i]
            if X_branch(c_eq(c, 34)):
                return mk_str(out), i + 1
            if X_branch(c_eq(c, 92)):
                if i + 1 >= n:
                    raise _err()
                e = cs[i + 1]
                i += 2
                if X_branch(c_eq(e, 117)):
                    v, i = hex4(i)
                    if X_branch(in_ranges(v, [(0xd800, 0xdbff)])) and i + 1 < n and \
                            X_branch(s._at(i, (92, 117))):
                        w, j = hex4(i + 2)
                        if X_branch(in_ranges(w, [(0xdc00, 0xdfff)])):
                            v = (v - 0xd800) * 1024 + (w - 0xdc00) + 0x10000
                            i = j
                    out.append(v if isinstance(v, int) else z3.simplify(v))
                    continue
                for a, b in ((34, 34), (92, 92), (47, 47), (98, 8), (102, 12), (110, 10), (114, 13), (116, 9)):
                    if X_branch(c_eq(e, a)):
                        out.append(b)
                        break
                else:
                    raise _err()
                continue
            if strict and X_branch(c < 32 if isinstance(c, int) else mk_bool(c < 32)):
                raise _err()
            out.append(c)
            i += 1

    def hex4(i):
        if i + 4 > n:
            raise _err()
        h = cs[i:i + 4]
        from .values import b_and, _digit_val
        if not X_branch(b_and(*[_plain_digit(c, 16) for c in h])):
            raise _err()
        v = 0
        for c in h:
            v = v * 16 + _digit_val(c, 16)
        if not isinstance(v, int):
            v = z3.simplify(v)
            if z3.is_int_value(v):
                v = v.as_long()
        return v, i + 4

    def arr(i):
        out = []
        i = ws(i)
        if i < n and X_branch(c_eq(cs[i], 93)):
            return out, i + 1
        while True:
            v, i = value(i)
            out.append(v)
            i = ws(i)
            if i < n and X_branch(c_eq(cs[i], 93)):
                return out, i + 1
            if not (i < n and X_branch(c_eq(cs[i], 44))):
                raise _err()
            i = ws(i + 1)

    def obj(i):
        out = []
        i = ws(i)
        if i < n and X_branch(c_eq(cs[i], 125)):
            return made(out), i + 1
        while True:
            if not (i < n and X_branch(c_eq(cs[i], 34))):
                raise _err()
            k, i = string(i + 1)
            i = ws(i)
            if not (i < n and X_branch(c_eq(cs[i], 58))):
                raise _err()
            v, i = value(ws(i + 1))
            out.append((k, v))
            i = ws(i)
            if i < n and X_branch(c_eq(cs[i], 125)):
                return made(out), i + 1
            if not (i < n and X_branch(c_eq(cs[i], 44))):
                raise _err()
            i = ws(i + 1)

    v, i = value(ws(0))
    if ws(i) != n:
        raise _err('Extra data')
    return v


def dec_float(t):
    """float of symbolic decimal text: only when it comes from float_str of a grid value"""
    from .calls import float_of_text
    cs = list(t.cs)
    neg = cs[0] == 45
    if neg:
        cs = cs[1:]
    if 46 in [c for c in cs if isinstance(c, int)]:
        p = cs.index(46)
        ip, fp = cs[:p], cs[p + 1:]
        if all(isinstance(c, int) for c in fp) and len(ip) < 15:
            import fractions
            f = fractions.Fraction(int(''.join(map(chr, fp))), 10 ** len(fp))
            d = f.denominator
            if d & (d - 1) == 0:
                tot = z3.IntVal(0)
                for c in ip:
                    tot = tot * 10 + (c - 48)
                e = z3.ToReal(tot) + z3.RealVal(f)
                if neg and f == 0 and X_branch(mk_bool(tot == 0)):
                    return -0.0
                return SymFloat(-e if neg else e, d.bit_length() - 1)
    raise Unsupported('float text')


def load(f, **k):
    return loads(f.read(), **k)


def dump(o, f, **k):
    f.write(dumps(o, **k))
