"""text formatting: '%', str.format and f-strings with symbolic arguments (lazy)"""
import re
import string

from .core import Unsupported
from .values import (SymStr, mk_bytes, SymBytes, SymInt, SymBool, is_sym, has_sym, sx_str, sx_repr,
                     fmt_concat, codes, mk_str, concretise_str, X_branch, c_eq, int_str, zfill)


def _plain(x):
    """native formatting is exact for x"""
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return True
    if issubclass(t, (list, tuple)):
        return not has_sym(x) and all(_plain(i) for i in x)
    return False


def format_value(x, spec, conv=None):
    if conv == 'r':
        x = sx_repr(x)
    elif conv in ('s', 'a'):
        x = sx_str(x)
    if not spec:
        if _plain(x):
            return format(x, '')
        return sx_str(x)
    if is_sym(spec):
        spec = concretise_str(spec)
    if not is_sym(x):
        f = getattr(type(x), '__format__', None)
        if f is not None and hasattr(f, '__code__'):
            return f(x, spec)
        return format(x, spec)
    return formatted(x, spec)


SPEC = re.compile(r'(?:(.)?([<>=^]))?([ +-]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)', re.S)


def formatted(x, spec):
    """format(x, spec) of a symbolic value"""
    m = SPEC.fullmatch(spec)
    if m is None:
        raise ValueError('Invalid format specifier')
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    width = int(width or 0)
    t = type(x)
    if t is SymStr:
        if typ not in ('', 's'):
            raise ValueError("Unknown format code '%s' for object of type 'str'" % typ)
        if sign or align == '=' or alt or comma:
            raise ValueError('not allowed in string format specifier')
        cs = codes(x) if prec is None else codes(x)[:int(prec)]
        return _aligned('', cs, fill or ('0' if zero else ' '), align or '<', width)
    if t in (SymInt, SymBool):
        if t is SymBool:
            if typ == '':
                raise Unsupported('format spec %r' % spec)
            x = x._i()
        if typ in ('e', 'E', 'f', 'F', 'g', 'G', '%', 'n'):
            raise Unsupported('format spec %r' % spec)
        if typ == 's':
            raise ValueError("Unknown format code 's' for object of type 'int'")
        if prec is not None:
            raise ValueError('Precision not allowed in integer format specifier')
        if typ == 'c':
            return _aligned('', [x.e], fill or ' ', align or '<', width)
        return int_field(x, typ or 'd', sign, alt, comma, fill or ('0' if zero else ' '), align or ('=' if zero else '>'), width)
    raise Unsupported('format spec %r' % spec)


def _aligned(head, cs, fill, align, width):
    """head: sign or prefix, kept in front of the filling with '='"""
    head, cs, f = list(codes(head)), list(cs), ord(fill)
    n = max(0, width - len(head) - len(cs))
    if align == '=':
        return mk_str(head + [f] * n + cs)
    l = n if align == '>' else 0 if align == '<' else n // 2
    return mk_str([f] * l + head + cs + [f] * (n - l))


def int_field(x, typ, sign, alt, comma, fill, align, width):
    neg = X_branch(x < 0) if is_sym(x) else x < 0
    v = -x if neg else x
    head = '-' if neg else sign if sign in ('+', ' ') else ''
    if typ == 'd':
        cs = codes(int_str(v)) if is_sym(v) else codes(str(v))
    else:
        base = {'x': 16, 'X': 16, 'o': 8, 'b': 2}[typ]
        cs = codes(base_text(v, base, typ == 'X'))
        if alt:
            head += '0' + typ
    if comma:
        if fill == '0' and align == '=':
            raise Unsupported('grouping with zero padding')
        g = 3 if typ == 'd' else 4
        out = []
        for i, c in enumerate(cs):
            if i and (len(cs) - i) % g == 0:
                out.append(ord(comma))
            out.append(c)
        cs = out
    return _aligned(head, cs, fill, align, width)


def base_text(v, base, upper=False):
    import z3
    from .values import X, zint
    if not is_sym(v):
        return format(v, {16: 'X' if upper else 'x', 8: 'o', 2: 'b'}[base])
    ex = X()
    e = zint(v)
    d = 1
    while not ex.branch(e < base ** d):
        d += 1
        if d > 64:
            raise Unsupported('digits of a huge number')
    ds = [ex.fresh('h') for _ in range(d)]
    tot = z3.IntVal(0)
    for c in ds:
        tot = tot * base + c
    ex.define(z3.And(e == tot, *[z3.And(c >= 0, c <= base - 1) for c in ds]))
    return mk_str([z3.If(c < 10, c + 48, c + (55 if upper else 87)) for c in ds])


def format_(tmpl, a, k):
    """tmpl.format(*a, **k)"""
    if not is_sym(tmpl) and all(_plain(x) for x in a) and all(_plain(x) for x in k.values()):
        return tmpl.format(*a, **k)
    if is_sym(tmpl):
        return _format_sym(tmpl, a, k)
    # errors of the template (KeyError, IndexError) must appear now; the text may wait
    plan = []
    auto = [0]
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            plan.append(lit)
        if field is None:
            continue
        v = _field(field, a, k, auto)
        if spec and '{' in spec:
            out = ''
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                out = fmt_concat(out, l2, *([] if f2 is None else [format_value(_field(f2, a, k, auto), s2 or '', c2)]))
            spec = concretise_str(out) if is_sym(out) else out
        plan.append((v, spec or '', conv))

    def thunk():
        return fmt_concat(*[p if isinstance(p, str) else format_value(*p) for p in plan])
    return SymStr(thunk=thunk)


def _field(field, a, k, auto):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    if first == '':
        first = auto[0]
        auto[0] += 1
    o = a[first] if isinstance(first, int) else k[first]
    for is_attr, name in rest:
        o = getattr(o, name) if is_attr else o[name]
    return o


def _format_sym(tmpl, a, k):
    """a template with symbolic characters: forks on braces"""
    cs = tmpl.cs
    out = []
    i = 0
    auto = [0]
    n = len(cs)
    while i < n:
        c = cs[i]
        if X_branch(c_eq(c, 123)):
            if i + 1 < n and X_branch(c_eq(cs[i + 1], 123)):
                out.append(123)
                i += 2
                continue
            j = i + 1
            depth = 1
            while j < n:
                if X_branch(c_eq(cs[j], 123)):
                    raise Unsupported('nested replacement field')
                if X_branch(c_eq(cs[j], 125)):
                    break
                j += 1
            else:
                raise ValueError("expected '}' before end of string" if i + 1 < n
                                 else "Single '{' encountered in format string")
            name = mk_str(cs[i + 1:j])
            if is_sym(name):
                for bad in '.[!:':
                    if X_branch(name.contains(bad)):
                        raise Unsupported('symbolic replacement field')
                if X_branch(name.isdigit()):
                    raise Unsupported('symbolic replacement field')
                for kk in k:
                    if X_branch(name == kk):
                        out.extend(codes(sx_str(k[kk])))
                        break
                else:
                    raise KeyError(name)
            else:
                f, _, spec = name.partition(':')
                f, _, conv = f.partition('!')
                out.extend(codes(format_value(_field(f, a, k, auto), spec, conv or None)))
            i = j + 1
        elif X_branch(c_eq(c, 125)):
            if i + 1 < n and X_branch(c_eq(cs[i + 1], 125)):
                out.append(125)
                i += 2
                continue
            raise ValueError("Single '}' encountered in format string")
        else:
            out.append(c)
            i += 1
    return mk_str(out)


def mod(tmpl, args):
    """tmpl % args for str"""
    if not is_sym(tmpl) and _plain(args):
        return tmpl % args
    if not is_sym(tmpl) and isinstance(args, dict) and not has_sym(args):
        return tmpl % args
    if is_sym(tmpl):
        if X_branch(tmpl.contains('%')):
            raise Unsupported('symbolic % template')
        return tmpl
    return _mod_plan(tmpl, args)


def _mod_plan(tmpl, args):
    plan = []
    i = 0
    pos = 0
    is_map = isinstance(args, dict)
    tup = args if isinstance(args, tuple) and not is_sym(args) else (args,)
    lit = ''
    while i < len(tmpl):
        if tmpl[i] != '%':
            lit += tmpl[i]
            i += 1
            continue
        i += 1
        if i < len(tmpl) and tmpl[i] == '%':
            lit += '%'
            i += 1
            continue
        key = None
        if i < len(tmpl) and tmpl[i] == '(':
            j = tmpl.index(')', i)
            key = tmpl[i + 1:j]
            i = j + 1
        st = i
        while i < len(tmpl) and tmpl[i] in '#0- +0123456789.*':
            i += 1
        flags, c = tmpl[st:i], tmpl[i]
        i += 1
        if '*' in flags:
            raise Unsupported('%* format')
        if key is not None:
            v = args[key]
        else:
            if pos >= len(tup):
                raise TypeError('not enough arguments for format string')
            v = tup[pos]
            pos += 1
        if lit:
            plan.append(lit)
            lit = ''
        plan.append((v, flags, c))
    if lit:
        plan.append(lit)
    if not is_map and pos < len(tup):
        raise TypeError('not all arguments converted during string formatting')

    def one(v, flags, c):
        if not has_sym(v) and (_plain(v) or c not in 'sr'):
            return ('%' + flags + c) % (v,)
        m = re.fullmatch(r'([#0 +-]*)(\d*)(?:\.(\d*))?', flags)
        fl, width, prec = m.group(1), int(m.group(2) or 0), m.group(3)
        if c in 'sra':
            s = sx_str(v) if c == 's' else sx_repr(v)
            if not flags:
                return s
            cs = codes(s)
            return _aligned('', cs if prec is None else cs[:int(prec or 0)], ' ', '<' if '-' in fl else '>', width)
        if c in 'diu':
            if type(v) not in (SymInt, SymBool):
                if type(v).__name__ == 'SymFloat':
                    v = v.trunc()
                else:
                    raise TypeError('%d format: a number is required')
            if not flags:
                return int_str(v)
            if flags[0] == '0' and flags.isdigit():
                from .values import pad_int
                return pad_int(v, int(flags)) if type(v) is SymInt else zfill(int_str(v), int(flags))
            if prec is not None:
                raise Unsupported('%% format %s' % flags)
            return int_field(v if type(v) is SymInt else v._i(), 'd', '+' if '+' in fl else ' ' if ' ' in fl else '', '', '',
                             '0' if '0' in fl and '-' not in fl else ' ',
                             '<' if '-' in fl else '=' if '0' in fl else '>', width)
        if c in 'xX':
            return hex_text(v, flags, c)
        if c == 'c':
            return fmt_concat(v) if isinstance(v, str) else mk_str([v.e])
        raise Unsupported('%% format %s%s' % (flags, c))
    # conversions check their type now, the text may wait
    for p in plan:
        if not isinstance(p, str) and p[2] in 'dixX' and not isinstance(p[0], (int, float)):
            raise TypeError('%%%s format: a number is required, not %s' % (p[2], type(p[0]).__name__))

    def thunk():
        return fmt_concat(*[p if isinstance(p, str) else one(*p) for p in plan])
    return SymStr(thunk=thunk)


def hex_text(v, flags, c):
    import z3
    from .values import X, zint
    ex = X()
    e = zint(v)
    ds = ex.get_digits(e, 16, int(flags)) if flags and flags.startswith('0') else None
    if ds is not None:
        return mk_str([z3.If(x < 10, x + 48, x + (87 if c == 'x' else 55)) for x in ds])
    if ex.branch(e < 0):
        raise Unsupported('hex of a negative number')
    w = int(flags) if flags else 0
    zero = flags.startswith('0')
    d = 1
    if zero and ex.branch(e < 16 ** w):
        d = w
    else:
        while not ex.branch(e < 16 ** d):
            d += 1
            if d > 40:
                raise Unsupported('hex of a huge number')
    ds = [ex.fresh('h') for _ in range(d)]
    tot = z3.IntVal(0)
    for x in ds:
        tot = tot * 16 + x
    ex.define(z3.And(e == tot, *[z3.And(x >= 0, x <= 15) for x in ds]))
    if d == w:
        ex.set_digits(e, 16, ds)
    s = mk_str([z3.If(x < 10, x + 48, x + (87 if c == 'x' else 55)) for x in ds])
    if w and not zero:
        return s.rjust(w)
    return s


def bytes_mod(tmpl, args):
    """tmpl % args for bytes"""
    if not has_sym(args) and not is_sym(tmpl):
        return tmpl % args
    if is_sym(tmpl):
        raise Unsupported('symbolic % template')
    tup = list(args) if isinstance(args, tuple) and not is_sym(args) else [args]
    out = []
    for lit, key, flags, c in re.findall(rb'([^%]*)(?:%(?:\(([^)]*)\))?([-#0 +\d.]*)(.))?', tmpl, re.S):
        out.extend(lit)
        if not c:
            continue
        if c == b'%':
            out.append(37)
            continue
        if key:
            v = args[key]
        elif not tup:
            raise TypeError('not enough arguments for format string')
        else:
            v = tup.pop(0)
        if c in b'sb':
            if not isinstance(v, (bytes, bytearray)):
                raise TypeError('%%b requires a bytes-like object, not %s' % type(v).__name__)
            if flags and has_sym(v):
                raise Unsupported('bytes % formatting')
            out.extend(codes(v) if not flags else b'%' + flags + b's' % v)
        elif c == b'c' and type(v) is SymInt:
            out.append(v.e)
        elif c in b'dixXo':
            if not isinstance(v, (int, float)):
                raise TypeError('%d format: a number is required')
            out.extend(codes(mod('%' + flags.decode() + c.decode(), (v,))))
        elif c in b'ra':
            out.extend(codes(sx_repr(v)))
        else:
            raise Unsupported('bytes % formatting')
    if tup and not isinstance(args, dict):
        raise TypeError('not all arguments converted during bytes formatting')
    return mk_bytes(out)
