"""symbolic values: proxies for bool, int, float, str and bytes.

Every operation either stays symbolic (builds a z3 term), or forks the path on a
condition (Explorer.branch), so each operation is exact for all values of the
proxy.  What is not modelled raises Unsupported (the path is then reported, it is
never silently approximated).
"""
import fractions
import unicodedata

import z3

from . import core
from .core import Unsupported


def X():
    e = core.EX
    if e is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return e


class Sym(object):
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a symbolic value')


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def has_sym(x, depth=6):
    if is_sym(x):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if issubclass(t, (list, tuple, set, frozenset)):
        return any(has_sym(i, depth - 1) for i in list.__iter__(x)) if issubclass(t, list) else \
            any(has_sym(i, depth - 1) for i in x)
    if issubclass(t, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    if getattr(t, '_sx_container', False):
        return any(has_sym(i, depth - 1) for i in x)
    return False


# ---------------------------------------------------------------- bool
def zbool(x):
    """python bool / SymBool / z3 -> z3 Bool"""
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymBool:
        return x.e
    if type(x) is bool:
        return z3.BoolVal(x)
    if is_sym(x):
        return zbool(truth(x))
    return z3.BoolVal(bool(x))


def truth(x):
    """truthiness as bool or SymBool, without forking where possible"""
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return x != 0
    if t is SymFloat:
        return x != 0
    return bool(x)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def b_and(*xs):
    zs = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        zs.append(zbool(x))
    if not zs:
        return True
    return mk_bool(z3.And(*zs) if len(zs) > 1 else zs[0])


def b_or(*xs):
    zs = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        zs.append(zbool(x))
    if not zs:
        return False
    return mk_bool(z3.Or(*zs) if len(zs) > 1 else zs[0])


def b_not(x):
    if isinstance(x, bool):
        return not x
    return mk_bool(z3.Not(zbool(x)))


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return X().branch(self.e)

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else b_not(self)
        if type(o) is SymBool:
            return mk_bool(self.e == o.e)
        return self._i() == o

    def __ne__(self, o):
        return b_not(self == o)

    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__

    def __and__(self, o):
        if isinstance(o, bool):
            return b_and(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return b_or(self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mk_bool(z3.Xor(self.e, zbool(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


# ---------------------------------------------------------------- int
def mk_int(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def zint(x):
    """int-like -> z3 Int (or None)"""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is bool or t is int:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int) and not is_sym(x):
        return z3.IntVal(int(x))
    return None


def zreal(x):
    t = type(x)
    if t is SymFloat:
        return x.e
    if t is float or (isinstance(x, float) and not is_sym(x)):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        f = fractions.Fraction(x)
        return z3.RealVal(f)
    z = zint(x)
    return None if z is None else z3.ToReal(z)


def _arith(a, b, op, rop=None):
    if isinstance(b, float):
        return NotImplemented
    zb = zint(b)
    if zb is None:
        return NotImplemented
    return mk_int(op(a.e, zb))


def _cmp_special(op, b):
    """comparison of a finite number with inf/nan b"""
    if b != b:
        return op == 'ne'
    pos = b > 0
    return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[op]


_CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
        'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


def _num_cmp(a, b, op):
    if isinstance(b, float) or type(a) is SymFloat:
        if isinstance(b, complex):
            return NotImplemented
        za, zb = zreal(a), zreal(b) if isinstance(b, (int, float)) else None
        if zb is None:
            if isinstance(b, float):
                return _cmp_special(op, b)
            return False if op == 'eq' else True if op == 'ne' else NotImplemented
        return mk_bool(_CMP[op](za, zb))
    if isinstance(b, int):
        zb = zint(b)
        return mk_bool(_CMP[op](a.e, zb))
    if op in ('eq', 'ne'):
        return NotImplemented
    return NotImplemented


def fdiv(a, b):
    """python floor division of z3 ints; b != 0 already decided on this path"""
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv > 0:
            return a / b          # z3: euclidean; for positive divisor == floor
        return (-a) / z3.IntVal(-bv)
    q = a / b
    r = a - q * b
    return z3.If(z3.And(b < 0, r != 0), q - 1, q)


def fmod_(a, b):
    return a - fdiv(a, b) * b if not z3.is_int_value(b) else (
        a % b if b.as_long() > 0 else -((-a) % z3.IntVal(-b.as_long())))


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return X().branch(self.e != 0)

    def __eq__(self, o):
        r = _num_cmp(self, o, 'eq')
        return r

    def __ne__(self, o):
        return _num_cmp(self, o, 'ne')

    def __lt__(self, o): return _num_cmp(self, o, 'lt')
    def __le__(self, o): return _num_cmp(self, o, 'le')
    def __gt__(self, o): return _num_cmp(self, o, 'gt')
    def __ge__(self, o): return _num_cmp(self, o, 'ge')

    def _f(self):
        return to_float(self)

    def __add__(self, o):
        if isinstance(o, float):
            return self._f() + o
        return _arith(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        if isinstance(o, float):
            return o + self._f()
        return _arith(self, o, lambda a, b: b + a)

    def __sub__(self, o):
        if isinstance(o, float):
            return self._f() - o
        return _arith(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, float):
            return o - self._f()
        return _arith(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float):
            return self._f() * o
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        return _arith(self, o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _div(self, a, b, op):
        za, zb = zint(a), zint(b)
        if za is None or zb is None:
            return NotImplemented
        if X().branch(zb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if not z3.is_int_value(zb):
            # keep the arithmetic linear
            zb = z3.IntVal(X().concretise(zb))
        return mk_int(op(za, zb))

    def __floordiv__(self, o):
        if isinstance(o, float):
            return self._f() // o
        return self._div(self, o, fdiv)

    def __rfloordiv__(self, o):
        if isinstance(o, float):
            return o // self._f()
        return self._div(o, self, fdiv)

    def __mod__(self, o):
        if isinstance(o, float):
            return self._f() % o
        return self._div(self, o, fmod_)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        if isinstance(o, float):
            return o % self._f()
        return self._div(o, self, fmod_)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self._f() / o

    def __rtruediv__(self, o):
        return o / self._f()

    def __neg__(self): return mk_int(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.e < 0, -self.e, self.e))
    def __invert__(self): return mk_int(-self.e - 1)

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def _bitop(self, o, f):
        return f(self.__index__(), o.__index__() if is_sym(o) else o)

    def __xor__(self, o):
        return self._bitop(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if type(o) is int and o > 0:
            # contiguous mask of bits lo..hi-1
            lo = (o & -o).bit_length() - 1
            if ((o >> lo) & ((o >> lo) + 1)) == 0:
                return ((self >> lo) % ((o >> lo) + 1)) << lo
        return self._bitop(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return bit_or(self, o)

    def __ror__(self, o):
        return bit_or(o, self)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return X().concretise(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def __round__(self, n=None):
        if n is None or n >= 0:
            return self
        return round(self.__index__(), n)

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, length, byteorder, signed=False):
        if signed:
            raise Unsupported('to_bytes signed')
        ds = X().get_digits(self.e, 256, length)
        if ds is not None:
            return mk_bytes(ds if byteorder == 'big' else ds[::-1])
        if X().branch(z3.Or(self.e < 0, self.e >= 256 ** length)):
            raise OverflowError('int too big to convert')
        ex = X()
        bs = [ex.fresh('tb') for _ in range(length)]
        tot = z3.IntVal(0)
        for b in bs:
            tot = tot * 256 + b
        ex.define(z3.And(self.e == tot, *[z3.And(b >= 0, b <= 255) for b in bs]))
        ex.set_digits(self.e, 256, bs)
        if byteorder == 'little':
            bs.reverse()
        return mk_bytes(bs)

    def is_integer(self):
        return True

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1

    def conjugate(self): return self

    def __str__(self):
        r = int_str(self)
        if type(r) is str:
            return r
        return concretise_str(r)

    def __repr__(self):
        return self.__str__()

    def __format__(self, spec):
        return format(self.__index__(), spec)


def bit_or(a, b):
    # exact when the operands' bits are provably disjoint (b < 2**k, a multiple of 2**k)
    za, zb = zint(a), zint(b)
    if za is None or zb is None:
        return NotImplemented
    ex = X()
    for x, y in ((za, zb), (zb, za)):
        for k in range(1, 33):
            if z3.is_int_value(y) and y.as_long() == 0:
                return mk_int(x)
            if ex._check(z3.Or(y < 0, y >= 2 ** k)) == z3.unsat:
                if ex._check(x % (2 ** k) != 0) == z3.unsat:
                    return mk_int(x + y)
                break
    x, y = [v.__index__() if is_sym(v) else v for v in (a, b)]
    return x | y


def int_str(n):
    """decimal text of an int: forks on sign and on the number of digits"""
    if type(n) is not SymInt:
        return str(int(n))
    ex = X()
    e = n.e
    neg = ex.branch(e < 0)
    a = -e if neg else e
    d = 1
    while not ex.branch(a < 10 ** d):
        d += 1
        if d > 40:
            raise Unsupported('integer with more than 40 digits')
    return mk_str(([45] if neg else []) + [48 + v for v in digits(a, d)])


def digits(a, d):
    ex = X()
    ds = [ex.fresh('d') for _ in range(d)]
    tot = z3.IntVal(0)
    for v in ds:
        tot = tot * 10 + v
    ex.define(z3.And(a == tot, *[z3.And(v >= 0, v <= 9) for v in ds]))
    return ds


def pad_int(n, width):
    """'%0<width>d' % n for 0 <= n < 10**width, without forks beyond that test"""
    if type(n) is not SymInt:
        return '%0*d' % (width, n)
    ex = X()
    if ex.branch(z3.And(n.e >= 0, n.e < 10 ** width)):
        return mk_str([48 + v for v in digits(n.e, width)])
    s = int_str(n)
    return zfill(s, width)


def zfill(s, width):
    if type(s) is str:
        return s.zfill(width)
    cs = list(s.cs)
    if len(cs) >= width:
        return s
    pad = [48] * (width - len(cs))
    if cs and X_branch(z_eq(cs[0], 45, 43)):
        return mk_str(cs[:1] + pad + cs[1:])
    return mk_str(pad + cs)


def z_eq(c, *vals):
    """c in vals as a condition"""
    if isinstance(c, int):
        return c in vals
    return mk_bool(z3.Or(*[c == v for v in vals]) if len(vals) > 1 else c == vals[0])


def X_branch(c):
    if isinstance(c, bool) and not is_sym(c):
        return c
    return X().branch(zbool(c))


_ND = None


def _nd_ranges():
    global _ND
    if _ND is None:
        _ND = [c for c in range(0x80, 0x3000)
               if unicodedata.category(chr(c)) == 'Nd' and unicodedata.digit(chr(c)) == 0]
    return _ND


WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
     [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
WS_B = [9, 10, 11, 12, 13, 32]


def _ranges(vals):
    out = []
    for v in sorted(vals):
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


_WS_R = _ranges(WS)
_WSB_R = _ranges(WS_B)


def in_ranges(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    return mk_bool(z3.Or(*[z3.And(c >= a, c <= b) if a != b else c == a for a, b in rs]))


def is_space(c, byt=False):
    return in_ranges(c, _WSB_R if byt else _WS_R)


def parse_int(s, base=10):
    """int(str) for a symbolic text"""
    if base not in (10, 16, 2, 8):
        raise Unsupported('int base')
    byt = type(s) is SymBytes
    s0 = s
    s = s.strip()

    def bad():
        return ValueError(LazyText(lambda: fmt_concat(
            'invalid literal for int() with base %d: ' % base, sx_repr(s0))))
    if not is_sym(s):
        try:
            return int(s, base)
        except ValueError:
            raise bad()
    cs = list(s.cs)
    neg = False
    if cs and X_branch(z_eq(cs[0], 43, 45)):
        neg = X_branch(z_eq(cs[0], 45))
        cs = cs[1:]
    if base != 10 and len(cs) >= 2 and X_branch(z_eq(cs[0], 48)):
        pre = {16: (120, 88), 8: (111, 79), 2: (98, 66)}[base]
        if X_branch(z_eq(cs[1], *pre)):
            cs = cs[2:]
            if cs and X_branch(z_eq(cs[0], 95)):
                cs = cs[1:]
    if not cs:
        raise bad()
    # fast path, one fork: nothing but plain ASCII digits
    ok = b_and(*[_plain_digit(c, base) for c in cs])
    if X_branch(ok):
        tot = z3.IntVal(0)
        ds = [_digit_val(c, base) for c in cs]
        if base == 16 and len(cs) > 4:
            ex = X()
            for i, d in enumerate(ds):
                if not isinstance(d, int):
                    ds[i] = ex.fresh('xd')
                    ex.define(z3.And(ds[i] == d, ds[i] >= 0, ds[i] <= 15))
        for d in ds:
            tot = tot * base + d
        tot = z3.simplify(tot)
        if base == 16 and not neg:
            X().set_digits(tot, 16, [z3.IntVal(d) if isinstance(d, int) else d for d in ds])
        return mk_int(-tot if neg else tot)
    tot = z3.IntVal(0)
    prev_us = True
    n = 0
    for i, c in enumerate(cs):
        if X_branch(z_eq(c, 95)):
            if prev_us or i == len(cs) - 1:
                raise bad()
            prev_us = True
            continue
        d = digit_of(c, base, byt)
        if d is None:
            raise bad()
        prev_us = False
        n += 1
        tot = tot * base + d
    if prev_us:
        raise bad()
    tot = z3.simplify(tot)
    return mk_int(-tot if neg else tot)


def _plain_digit(c, base):
    rs = [(48, 47 + min(base, 10))] + ([(65, 70), (97, 102)] if base == 16 else [])
    return in_ranges(c, rs)


def _digit_val(c, base):
    if isinstance(c, int):
        return int(chr(c), base)
    if base == 16:
        return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
    return c - 48


def digit_of(c, base, byt=False):
    """the digit value (z3 or int) of codepoint c or None; forks"""
    if isinstance(c, int):
        try:
            return int(chr(c), base) if not (byt and c > 127) else None
        except ValueError:
            return None
    if X_branch(_plain_digit(c, base)):
        return _digit_val(c, base)
    if byt or X_branch(mk_bool(c < 128)):
        return None
    if X_branch(mk_bool(c >= 0x3000)):
        raise Unsupported('digits above U+3000')
    for st in _nd_ranges():
        if X_branch(mk_bool(z3.And(c >= st, c <= st + 9))):
            if base < 10:
                raise Unsupported('unicode digits')
            return c - st
    return None


# ---------------------------------------------------------------- float
class SymFloat(Sym):
    """a finite float: exact rational term e that is known to be representable;
    k: e * 2**k is an integer (None: unknown)"""
    __slots__ = ('e', 'k', 'n')

    def __init__(self, e, k=None, n=None):
        # n: z3 Int with e == n / 2**k, when there is one
        self.e, self.k, self.n = e, k, n

    def num(self, k):
        """e * 2**k as an Int term (k >= self.k)"""
        if self.n is not None:
            return self.n * (2 ** (k - self.k)) if k != self.k else self.n
        return z3.ToInt(self.e * (2 ** k))

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return X().branch(self.e != 0)

    def __eq__(self, o): return _num_cmp(self, o, 'eq')
    def __ne__(self, o): return _num_cmp(self, o, 'ne')
    def __lt__(self, o): return _num_cmp(self, o, 'lt')
    def __le__(self, o): return _num_cmp(self, o, 'le')
    def __gt__(self, o): return _num_cmp(self, o, 'gt')
    def __ge__(self, o): return _num_cmp(self, o, 'ge')

    def __neg__(self): return SymFloat(-self.e, self.k, None if self.n is None else -self.n)
    def __pos__(self): return self
    def __abs__(self): return SymFloat(z3.If(self.e < 0, -self.e, self.e), self.k)

    def _exact(self, e, k):
        """e is exact as a float if |e| * 2**k < 2**53"""
        if k is None or k > 60:
            raise Unsupported('float arithmetic off the grid')
        lim = z3.RealVal(fractions.Fraction(2 ** 53, 2 ** k))
        if X()._check(z3.Or(e > lim, e < -lim)) != z3.unsat:
            raise Unsupported('float arithmetic may round')
        return SymFloat(e, k)

    def _bin(self, o, f, kf, nf=None):
        z = zreal(o) if isinstance(o, (int, float)) else None
        if z is None:
            if isinstance(o, float):
                raise Unsupported('float arithmetic with inf/nan')
            return NotImplemented
        k = kf(self.k, grid(o))
        r = self._exact(f(self.e, z), k)
        if nf is not None and self.n is not None and k is not None and k <= 60:
            b = o.n if type(o) is SymFloat else (zint(o) if isinstance(o, int) else
                                                 z3.IntVal(int(fractions.Fraction(o) * 2 ** grid(o))))
            if b is not None:
                r.n = nf(self, o, b, k)
        return r

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, kmax, lambda x, o, b, k: x.num(k) + b * 2 ** (k - grid(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, kmax, lambda x, o, b, k: x.num(k) - b * 2 ** (k - grid(o)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, kmax, lambda x, o, b, k: b * 2 ** (k - grid(o)) - x.num(k))

    def __mul__(self, o):
        if is_sym(o):
            raise Unsupported('product of symbolic floats')
        return self._bin(o, lambda a, b: a * b, ksum, lambda x, o, b, k: x.n * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not is_sym(o) and isinstance(o, (int, float)) and o != 0:
            f = fractions.Fraction(o)
            if f.numerator in (1, -1) or (abs(f.numerator) & (abs(f.numerator) - 1)) == 0:
                inv = 1 / f
                return self._bin(float(inv), lambda a, b: a * b, ksum)
        raise Unsupported('float division')

    def __rtruediv__(self, o):
        raise Unsupported('float division')

    def __mod__(self, o):
        if is_sym(o):
            raise Unsupported('float modulo by a symbolic value')
        if o == 0:
            raise ZeroDivisionError('float modulo')
        m = zreal(o)
        if m is None:
            raise Unsupported('float modulo')
        g = grid(o)
        if self.k is not None and self.k <= 60 and g <= 60:
            K = max(self.k, g)
            n = fmod_(self.num(K), z3.IntVal(int(fractions.Fraction(o) * 2 ** K)))
            r = self._exact(z3.ToReal(n) / (2 ** K), K)
            r.n = n
            return r
        r = self.e - m * z3.ToReal(z3.ToInt(self.e / m))
        # python: result has the sign of the divisor = floor semantics of the real quotient
        return self._exact(r, kmax(self.k, grid(o)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        raise Unsupported('float modulo by a symbolic value')

    def __floordiv__(self, o):
        if is_sym(o) or o == 0:
            raise Unsupported('float floor division')
        m = zreal(o)
        return self._exact(z3.ToReal(z3.ToInt(self.e / m)), 0)

    def __divmod__(self, o):
        return self // o, self % o

    def trunc(self):
        if self.n is not None:
            d = 2 ** self.k
            return mk_int(z3.simplify(z3.If(self.n >= 0, self.n / d, -((-self.n) / d))))
        return mk_int(z3.simplify(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    __trunc__ = trunc

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('round')
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        return mk_int(z3.If(z3.Or(d > half, z3.And(d == half, fl % 2 == 1)), fl + 1, fl))

    def __int__(self):
        t = self.trunc()
        return t if type(t) is int else t.__index__()

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def _conc(self):
        if self.k is None:
            raise Unsupported('concretising a float')
        n = X().concretise(z3.ToInt(self.e * (2 ** self.k)))
        return n / float(2 ** self.k)

    def __float__(self): return self._conc()

    def __hash__(self): return hash(self._conc())

    def __str__(self):
        r = float_str(self)
        return r if type(r) is str else concretise_str(r)

    __repr__ = __str__

    def __format__(self, spec):
        return format(self._conc(), spec)

    @property
    def real(self): return self


def kmax(a, b):
    return None if a is None or b is None else max(a, b)


def ksum(a, b):
    return None if a is None or b is None else a + b


def grid(x):
    if type(x) is SymFloat:
        return x.k
    if isinstance(x, int):
        return 0
    d = fractions.Fraction(x).denominator
    return d.bit_length() - 1


def float_str(x):
    """repr of a grid float; forks on the fraction and the digits"""
    if type(x) is not SymFloat:
        return str(float(x))
    if x.k is None or x.k > 6:
        raise Unsupported('text of a float')
    ex = X()
    if not ex.branch(z3.And(x.e < 10 ** 15, x.e > -10 ** 15)):
        raise Unsupported('text of a large float')
    neg = ex.branch(x.e < 0)
    a = -x.e if neg else x.e
    ip = z3.ToInt(a)
    fr = ex.concretise(z3.ToInt((a - z3.ToReal(ip)) * (2 ** x.k)))
    ft = repr(fr / float(2 ** x.k))[1:]
    if fr and X_branch(mk_bool(ip == 0)) and fr / float(2 ** x.k) < 1e-4:
        raise Unsupported('text of a small float')
    return fmt_concat('-' if neg else '', int_str(mk_int(z3.simplify(ip))), ft)


def to_float(x):
    """float(int) with round-half-even above 2**53"""
    if type(x) is SymBool:
        x = x._i()
    if type(x) is SymFloat:
        return x
    if type(x) is not SymInt:
        return float(x)
    ex = X()
    e = x.e
    if ex.branch(z3.And(e <= 2 ** 53, e >= -2 ** 53)):
        return SymFloat(z3.ToReal(e), 0, e)
    neg = ex.branch(e < 0)
    a = -e if neg else e
    for k in range(1, 20):
        if ex.branch(a < 2 ** (53 + k)):
            q, r = ex.fresh('fq'), ex.fresh('fr')
            ex.define(z3.And(a == q * 2 ** k + r, r >= 0, r < 2 ** k))
            up = z3.Or(r > 2 ** (k - 1), z3.And(r == 2 ** (k - 1), q % 2 == 1))
            v = (q + z3.If(up, z3.IntVal(1), z3.IntVal(0))) * 2 ** k
            return SymFloat(z3.ToReal(-v if neg else v), 0)
    raise Unsupported('float of a huge integer')


def to_int(x):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._i()
    if t is SymFloat:
        return x.trunc()
    raise Unsupported('int')


# ---------------------------------------------------------------- str / bytes
def c_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return mk_bool(a == b)


class SymSeq(Sym):
    __slots__ = ('_cs', '_thunk')
    byt = False

    def __init__(self, cs=None, thunk=None):
        self._cs = cs
        self._thunk = thunk

    @property
    def cs(self):
        if self._cs is None:
            r = self._thunk()
            self._cs = tuple(codes(r))
            self._thunk = None
        return self._cs

    # -- construction helpers
    def _mk(self, cs):
        return mk_bytes(cs) if self.byt else mk_str(cs)

    def _co(self, o, what='argument'):
        """codes of another text of the same kind"""
        if type(o) is type(self):
            return o.cs
        if self.byt:
            if type(o) in (bytes, bytearray) or isinstance(o, (bytes, bytearray)):
                return tuple(bytes(o))
        elif type(o) is str or (isinstance(o, str) and not is_sym(o)):
            return tuple(map(ord, o))
        raise TypeError('must be %s, not %s' % ('bytes-like' if self.byt else 'str', type(o).__name__))

    def _is(self, o):
        return isinstance(o, (bytes, bytearray) if self.byt else str)

    # -- basics
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __hash__(self):
        cs = self.cs
        if all(isinstance(c, int) for c in cs):
            return hash(bytes(cs) if self.byt else ''.join(map(chr, cs)))
        raise Unsupported('hash of a symbolic text')

    def _eqz(self, o):
        if not self._is(o):
            return NotImplemented
        oc = self._co(o)
        cs = self.cs
        if len(oc) != len(cs):
            return False
        return b_and(*[c_eq(a, b) for a, b in zip(cs, oc)])

    def __eq__(self, o):
        return self._eqz(o)

    def __ne__(self, o):
        r = self._eqz(o)
        return r if r is NotImplemented else b_not(r)

    def _ltz(self, a, b, orequal):
        # lexicographic, as one formula
        r = len(a) <= len(b) if orequal else len(a) < len(b)
        n = min(len(a), len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            lt = (x < y) if isinstance(x, int) and isinstance(y, int) else mk_bool(x < y)
            r = b_or(lt, b_and(c_eq(x, y), r))
        return r

    def __lt__(self, o):
        return self._ltz(self.cs, self._co(o), False) if self._is(o) else NotImplemented

    def __le__(self, o):
        return self._ltz(self.cs, self._co(o), True) if self._is(o) else NotImplemented

    def __gt__(self, o):
        return self._ltz(self._co(o), self.cs, False) if self._is(o) else NotImplemented

    def __ge__(self, o):
        return self._ltz(self._co(o), self.cs, True) if self._is(o) else NotImplemented

    def __add__(self, o):
        if not self._is(o):
            return NotImplemented
        if not self.byt and (self._cs is None or (type(o) is SymStr and o._cs is None)):
            a, b = self, o
            return SymStr(thunk=lambda: mk_str(list(codes(a)) + list(codes(b))))
        return self._mk(list(self.cs) + list(self._co(o)))

    def __radd__(self, o):
        if not self._is(o):
            return NotImplemented
        return self._mk(list(self._co(o)) + list(self.cs))

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        n = n.__index__()
        return self._mk(list(self.cs) * n)
    __rmul__ = __mul__

    def _item(self, c):
        if self.byt:
            return c if isinstance(c, int) else SymInt(c)
        return chr(c) if isinstance(c, int) else SymStr((c,))

    def __getitem__(self, i):
        cs = self.cs
        if isinstance(i, slice):
            return self._mk(cs[idx_slice(i)])
        if is_sym(i):
            if type(i) not in (SymInt, SymBool):
                raise TypeError('indices must be integers')
            i = seq_index(i, len(cs))
        return self._item(cs[i])

    def __iter__(self):
        return iter([self._item(c) for c in self.cs])

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        if self.byt and isinstance(o, int):
            return b_or(*[c_eq(c, zint(o) if is_sym(o) else o) for c in self.cs])
        sub = self._co(o)
        n, m = len(self.cs), len(sub)
        return b_or(*[self._at(i, sub) for i in range(0, n - m + 1)])

    def _at(self, i, sub):
        """condition: sub occurs at i"""
        cs = self.cs
        if i < 0 or i + len(sub) > len(cs):
            return False
        return b_and(*[c_eq(cs[i + j], sub[j]) for j in range(len(sub))])

    def _bounds(self, start, end):
        n = len(self.cs)
        s, e, _ = slice(cindex(start), cindex(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        if self.byt and isinstance(sub, int):
            sub = self._mk([sub])
        sub = self._co(sub)
        n = len(self.cs)
        s, e = self._bounds(start, end)
        if start is not None and cindex(start) is not None and cindex(start) > n:
            return -1
        for i in range(s, e - len(sub) + 1):
            if X_branch(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        if self.byt and isinstance(sub, int):
            sub = self._mk([sub])
        sub = self._co(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if X_branch(self._at(i, sub)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        sub = self._co(sub)
        s, e = self._bounds(start, end)
        if not sub:
            return e - s + 1
        n = 0
        i = s
        while i + len(sub) <= e:
            if X_branch(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or(*[self.startswith(q, start, end) for q in p])
        p = self._co(p)
        s, e = self._bounds(start, end)
        return self._at(s, p) if s + len(p) <= e else False

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return b_or(*[self.endswith(q, start, end) for q in p])
        p = self._co(p)
        s, e = self._bounds(start, end)
        return self._at(e - len(p), p) if e - len(p) >= s else False

    def removeprefix(self, p):
        if X_branch(self.startswith(p)):
            return self[len(p):]
        return self

    def removesuffix(self, p):
        if len(p) and X_branch(self.endswith(p)):
            return self[:len(self) - len(p)]
        return self

    def _strip_set(self, chars):
        if chars is None:
            byt = self.byt
            return lambda c: is_space(c, byt)
        cc = self._co(chars)
        return lambda c: b_or(*[c_eq(c, x) for x in cc])

    def lstrip(self, chars=None):
        f = self._strip_set(chars)
        cs = self.cs
        i = 0
        while i < len(cs) and X_branch(f(cs[i])):
            i += 1
        return self._mk(cs[i:])

    def rstrip(self, chars=None):
        f = self._strip_set(chars)
        cs = self.cs
        i = len(cs)
        while i > 0 and X_branch(f(cs[i - 1])):
            i -= 1
        return self._mk(cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = cindex(maxsplit)
        cs = self.cs
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and X_branch(is_space(cs[i], self.byt)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(self._mk(cs[i:]).rstrip())
                    break
                j = i
                while i < n and not X_branch(is_space(cs[i], self.byt)):
                    i += 1
                out.append(self._mk(cs[j:i]))
            return out
        sep = self._co(sep)
        if not sep:
            raise ValueError('empty separator')
        i = st = 0
        while i + len(sep) <= len(cs):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if X_branch(self._at(i, sep)):
                out.append(self._mk(cs[st:i]))
                i += len(sep)
                st = i
            else:
                i += 1
        out.append(self._mk(cs[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = cindex(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self._rsplit_space(maxsplit)
        cs = self.cs
        sep = self._co(sep)
        if not sep:
            raise ValueError('empty separator')
        out = []
        end = len(cs)
        i = end - len(sep)
        while i >= 0 and len(out) < maxsplit:
            if X_branch(self._at(i, sep)):
                out.append(self._mk(cs[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(self._mk(cs[:end]))
        out.reverse()
        return out

    def _rsplit_space(self, maxsplit):
        cs = self.cs
        out, i = [], len(cs)
        while True:
            while i and X_branch(is_space(cs[i - 1], self.byt)):
                i -= 1
            if not i:
                break
            if len(out) >= maxsplit:
                out.append(self._mk(cs[:i]))
                break
            j = i
            while i and not X_branch(is_space(cs[i - 1], self.byt)):
                i -= 1
            out.append(self._mk(cs[i:j]))
        return out[::-1]

    def splitlines(self, keepends=False):
        cs = self.cs
        brk = [10, 13] if self.byt else [10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029]
        out, i, st = [], 0, 0
        while i < len(cs):
            if X_branch(z_eq(cs[i], *brk)):
                e = i
                if i + 1 < len(cs) and X_branch(b_and(c_eq(cs[i], 13), c_eq(cs[i + 1], 10))):
                    i += 1
                i += 1
                out.append(self._mk(cs[st:i if keepends else e]))
                st = i
            else:
                i += 1
        if st < len(cs):
            out.append(self._mk(cs[st:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        e = self._mk([])
        if i < 0:
            return (self, e, e)
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        e = self._mk([])
        if i < 0:
            return (e, e, self)
        return (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        count = cindex(count)
        old, new = self._co(old), self._co(new)
        cs = self.cs
        if not old:
            out = []
            n = 0
            for c in cs:
                if count < 0 or n < count:
                    out.extend(new)
                    n += 1
                out.append(c)
            if count < 0 or n < count:
                out.extend(new)
            return self._mk(out)
        if len(old) == 1 and len(new) == 1 and count < 0:
            # no fork needed
            out = []
            for c in cs:
                m = c_eq(c, old[0])
                if m is True:
                    out.append(new[0])
                elif m is False:
                    out.append(c)
                else:
                    out.append(z3.If(m.e, zc(new[0]), zc(c)))
            return self._mk(out)
        out, i, n = [], 0, 0
        while i < len(cs):
            if (count < 0 or n < count) and i + len(old) <= len(cs) and X_branch(self._at(i, old)):
                out.extend(new)
                i += len(old)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return self._mk(out)

    def join(self, it):
        parts = list(it)
        out = []
        for i, p in enumerate(parts):
            if i:
                out.extend(self.cs)
            if not self._is(p):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(p).__name__))
            out.extend(self._co(p))
        return self._mk(out)

    def _map(self, f):
        return self._mk([f(c) for c in self.cs])

    def _cased(self, c, lo, hi, d):
        if isinstance(c, int):
            if c < 128 or self.byt:
                return c + d if lo <= c <= hi else c
            s = chr(c)
            s = s.lower() if d > 0 else s.upper()
            if len(s) != 1:
                raise Unsupported('case mapping changes the length')
            return ord(s)
        if not self.byt and not X_branch(mk_bool(c < 128)):
            if X_branch(mk_bool(c >= 0x180)):
                raise Unsupported('case mapping above U+0180')
            # latin-1 / latin extended-A: piecewise, grouped by offset
            groups = {}
            for v in range(128, 0x180):
                t = chr(v).lower() if d > 0 else chr(v).upper()
                groups.setdefault(tuple(ord(x) - v for x in t) if len(t) == 1 else None, []).append(v)
            for off, vs in sorted(groups.items(), key=lambda kv: (kv[0] is None, kv[0] or ())):
                if X_branch(in_ranges(c, _ranges(vs))):
                    if off is None:
                        raise Unsupported('case mapping changes the length')
                    return c + off[0]
            raise Unsupported('case mapping')
        return z3.If(z3.And(c >= lo, c <= hi), c + d, c)

    def lower(self):
        return self._map(lambda c: self._cased(c, 65, 90, 32))

    casefold = lower

    def upper(self):
        return self._map(lambda c: self._cased(c, 97, 122, -32))

    def capitalize(self):
        if not self.cs:
            return self
        return fmt_concat(self[:1].upper(), self[1:].lower())

    def center(self, w, fill=' '):
        n = cindex(w) - len(self.cs)
        if n <= 0:
            return self
        f, l = list(self._co(fill)), n // 2 + (n & cindex(w) & 1)
        return self._mk(f * l + list(self.cs) + f * (n - l))

    def title(self):
        out, prev = [], False
        for c in self.cs:
            out.append(self._cased(c, 65, 90, 32) if prev else self._cased(c, 97, 122, -32))
            prev = X_branch(self._ascii_cls(c, [(65, 90), (97, 122)], str.isalpha))
        return self._mk(out)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.cs:
            if X_branch(c_eq(c, 9)):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.extend([32] * n)
                col += n
            else:
                out.append(c)
                col = 0 if X_branch(z_eq(c, 10, 13)) else col + 1
        return self._mk(out)

    def swapcase(self):
        def f(c):
            if X_branch(self._ascii_cls(c, [(65, 90)], str.isupper)):
                return self._cased(c, 65, 90, 32)
            return self._cased(c, 97, 122, -32)
        return self._map(f)

    def zfill(self, w):
        return zfill(self, cindex(w))

    def ljust(self, w, fill=' '):
        n = cindex(w) - len(self.cs)
        return self if n <= 0 else self._mk(list(self.cs) + list(self._co(fill)) * n)

    def rjust(self, w, fill=' '):
        n = cindex(w) - len(self.cs)
        return self if n <= 0 else self._mk(list(self._co(fill)) * n + list(self.cs))

    def _all(self, f):
        return False if not self.cs else b_and(*[f(c) for c in self.cs])

    def _ascii_cls(self, c, rs, uni):
        if isinstance(c, int):
            return any(a <= c <= b for a, b in rs) if (c < 128 or self.byt) else uni(chr(c))
        if self.byt:
            return in_ranges(c, rs)
        if X_branch(mk_bool(c < 128)):
            return in_ranges(c, rs)
        if X_branch(mk_bool(c >= 0x800)):
            raise Unsupported('character class above U+0800')
        return in_ranges(c, _ranges([v for v in range(128, 0x800) if uni(chr(v))]) or [(-1, -1)])

    def isdigit(self):
        return self._all(lambda c: self._ascii_cls(c, [(48, 57)], str.isdigit))

    def isdecimal(self):
        return self._all(lambda c: self._ascii_cls(c, [(48, 57)], str.isdecimal))

    def isnumeric(self):
        return self._all(lambda c: self._ascii_cls(c, [(48, 57)], str.isnumeric))

    def isalpha(self):
        return self._all(lambda c: self._ascii_cls(c, [(65, 90), (97, 122)], str.isalpha))

    def isalnum(self):
        return self._all(lambda c: self._ascii_cls(c, [(48, 57), (65, 90), (97, 122)], str.isalnum))

    def isspace(self):
        return self._all(lambda c: is_space(c, self.byt))

    def isascii(self):
        return b_and(*[c < 128 if isinstance(c, int) else mk_bool(c < 128) for c in self.cs])

    def _cases(self):
        up = b_or(*[self._ascii_cls(c, [(65, 90)], lambda x: x.isupper() or x.istitle()) for c in self.cs])
        lo = b_or(*[self._ascii_cls(c, [(97, 122)], str.islower) for c in self.cs])
        return up, lo

    def isupper(self):
        up, lo = self._cases()
        return b_and(up, b_not(lo))

    def islower(self):
        up, lo = self._cases()
        return b_and(lo, b_not(up))

    def istitle(self):
        raise Unsupported('istitle')

    def __deepcopy__(self, memo):
        return self


class SymStr(SymSeq):
    __slots__ = ()
    byt = False

    @property
    def __class__(self):
        return str

    def __str__(self):
        return concretise_str(self)

    def __repr__(self):
        return repr(concretise_str(self))

    def __format__(self, spec):
        return format(concretise_str(self), spec)

    def __mod__(self, args):
        from . import fmt
        return fmt.mod(self, args)

    def __rmod__(self, o):
        from . import fmt
        if isinstance(o, str):
            return fmt.mod(o, self)
        return NotImplemented

    def format(self, *a, **k):
        from . import fmt
        return fmt.format_(self, a, k)

    def encode(self, encoding='utf-8', errors='strict'):
        return encode(self, encoding, errors)

    def translate(self, table):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                v = table.get(c, c) if hasattr(table, 'get') else table[c]
                out.extend([v] if isinstance(v, int) else codes(v) if v is not None else [])
                continue
            for k in table.keys():
                if X_branch(mk_bool(c == k)):
                    v = table[k]
                    out.extend([v] if isinstance(v, int) else codes(v) if v is not None else [])
                    break
            else:
                out.append(c)
        return mk_str(out)

    def isidentifier(self):
        if not self.cs:
            return False
        one = [self._ascii_cls(self.cs[0], [(65, 90), (97, 122), (95, 95)], str.isidentifier)]
        return b_and(*(one + [self._ascii_cls(c, [(48, 57), (65, 90), (97, 122), (95, 95)], lambda x: ('a' + x).isidentifier())
                              for c in self.cs[1:]]))

    def isprintable(self):
        return b_and(*[self._ascii_cls(c, [(32, 126)], str.isprintable) for c in self.cs])

    def format_map(self, m):
        from . import fmt
        return fmt.format_(self, (), m)


class SymBytes(SymSeq):
    __slots__ = ()
    byt = True

    @property
    def __class__(self):
        return bytes

    def __str__(self):
        raise Unsupported('str of bytes')

    def __repr__(self):
        return '<symbolic bytes>'

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def hex(self):
        out = []
        for c in self.cs:
            for d in (fdiv(zc(c), z3.IntVal(16)), zc(c) % 16):
                d = z3.simplify(d)
                out.append(z3.simplify(z3.If(d < 10, d + 48, d + 87)))
        return mk_str([c.as_long() if z3.is_int_value(c) else c for c in out])

    def translate(self, table, delete=b''):
        if delete:
            raise Unsupported('bytes.translate')
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.append(table[c])
            else:
                groups = {}
                for i, v in enumerate(table):
                    groups.setdefault(v - i, []).append(i)
                e = None
                for off, vs in groups.items():
                    e = c + off if e is None else z3.If(zbool(in_ranges(c, _ranges(vs))), c + off, e)
                out.append(e)
        return mk_bytes(out)


def LazyText(thunk):
    """text computed only when somebody looks at it (error messages)"""
    return SymStr(thunk=thunk)


def zc(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def codes(s):
    if is_sym(s):
        if not isinstance(s, (str, bytes)):
            raise TypeError('text expected')
        return s.cs
    if isinstance(s, str):
        return tuple(map(ord, s))
    if isinstance(s, (bytes, bytearray)):
        return tuple(bytes(s))
    raise TypeError('text expected, not %s' % type(s).__name__)


def mk_str(cs):
    cs = tuple(c.as_long() if not isinstance(c, int) and z3.is_int_value(c) else c for c in cs)
    if all(isinstance(c, int) for c in cs):
        return ''.join(map(chr, cs))
    return SymStr(cs)


def mk_bytes(cs):
    cs = tuple(c.as_long() if not isinstance(c, int) and z3.is_int_value(c) else c for c in cs)
    if all(isinstance(c, int) for c in cs):
        return bytes(cs)
    return SymBytes(cs)


def wrap(s):
    """a proxy over a native text (not normalised back), to reuse the methods"""
    if is_sym(s):
        return s
    if isinstance(s, str):
        return SymStr(tuple(map(ord, s)))
    return SymBytes(tuple(bytes(s)))


def cindex(i):
    if i is None or type(i) is int:
        return i
    return i.__index__()


def idx_slice(s):
    return slice(cindex(s.start), cindex(s.stop), cindex(s.step))


def seq_index(i, n):
    """a symbolic index into a sequence of n: concretise (IndexError side included)"""
    ex = X()
    e = zint(i)
    if ex.branch(z3.Or(e >= n, e < -n)):
        raise IndexError('index out of range')
    return ex.concretise(e)


def fmt_concat(*parts):
    out = []
    for p in parts:
        out.extend(codes(p))
    return mk_str(out)


def concretise_str(s):
    """enumerate a symbolic text by forking (complete while few values are possible)"""
    cs = s.cs
    out = []
    ex = X()
    for c in cs:
        out.append(c if isinstance(c, int) else ex.concretise(c, cap=16))
    return ''.join(map(chr, out))


# ---- codecs
def _enc_norm(e):
    if is_sym(e):
        e = concretise_str(e)
    e = e.lower().replace('_', '-')
    return {'utf8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1', 'iso8859-1': 'latin-1',
            'l1': 'latin-1', 'us-ascii': 'ascii'}.get(e, e)


def encode(s, encoding='utf-8', errors='strict'):
    if not is_sym(s):
        return s.encode(encoding, errors)
    enc = _enc_norm(encoding)
    out = []

    def err(c):
        if errors == 'strict':
            raise UnicodeEncodeError(enc, '?', 0, 1, 'symbolic')
        if errors == 'ignore':
            return []
        if errors == 'replace':
            return [63]
        if errors == 'xmlcharrefreplace':
            return list(codes(fmt_concat('&#', int_str(SymInt(c)), ';')))
        raise Unsupported('encode errors=%s' % errors)
    for c in s.cs:
        if isinstance(c, int):
            out.extend(chr(c).encode(encoding, errors))
            continue
        if enc in ('ascii', 'latin-1'):
            if X_branch(mk_bool(c >= (128 if enc == 'ascii' else 256))):
                out += err(c)
            else:
                out.append(c)
        elif enc == 'utf-8':
            if X_branch(mk_bool(c < 0x80)):
                out.append(c)
            elif X_branch(mk_bool(c < 0x800)):
                out += [c / 64 + 0xc0, c % 64 + 0x80]
            elif X_branch(mk_bool(z3.And(c >= 0xd800, c <= 0xdfff))):
                out += err(c)
            elif X_branch(mk_bool(c < 0x10000)):
                out += [c / 4096 + 0xe0, (c / 64) % 64 + 0x80, c % 64 + 0x80]
            else:
                out += [c / 262144 + 0xf0, (c / 4096) % 64 + 0x80, (c / 64) % 64 + 0x80, c % 64 + 0x80]
        else:
            raise Unsupported('encoding %s' % enc)
    return mk_bytes(out)


def decode(b, encoding='utf-8', errors='strict'):
    if not is_sym(b):
        return b.decode(encoding, errors)
    enc = _enc_norm(encoding)
    cs = b.cs
    out = []

    def err():
        if errors == 'strict':
            raise UnicodeDecodeError(enc, b'?', 0, 1, 'symbolic')
        if errors == 'replace':
            out.append(0xfffd)
            return
        if errors == 'ignore':
            return
        raise Unsupported('decode errors=%s' % errors)
    if enc == 'latin-1':
        return mk_str(cs)
    if enc == 'ascii':
        for c in cs:
            if X_branch(c < 128 if isinstance(c, int) else mk_bool(c < 128)):
                out.append(c)
            else:
                err()
        return mk_str(out)
    if enc != 'utf-8':
        raise Unsupported('decoding %s' % enc)
    i = 0

    def rng(c, a, z):
        return in_ranges(c, [(a, z)])
    while i < len(cs):
        c = cs[i]
        if X_branch(rng(c, 0, 0x7f)):
            out.append(c)
            i += 1
            continue
        if X_branch(rng(c, 0xc2, 0xdf)):
            n = 1
        elif X_branch(rng(c, 0xe0, 0xef)):
            n = 2
        elif X_branch(rng(c, 0xf0, 0xf4)):
            n = 3
        else:
            err()
            i += 1
            continue
        lo, hi = 0x80, 0xbf

        def second(x):
            if n == 2:
                return b_or(b_and(c_eq(c, 0xe0), rng(x, 0xa0, 0xbf)),
                            b_and(c_eq(c, 0xed), rng(x, 0x80, 0x9f)),
                            b_and(b_not(z_eq(c, 0xe0, 0xed)), rng(x, lo, hi)))
            if n == 3:
                return b_or(b_and(c_eq(c, 0xf0), rng(x, 0x90, 0xbf)),
                            b_and(c_eq(c, 0xf4), rng(x, 0x80, 0x8f)),
                            b_and(b_not(z_eq(c, 0xf0, 0xf4)), rng(x, lo, hi)))
            return rng(x, lo, hi)
        t = cs[i + 1:i + 1 + n]
        ok = len(t) == n and b_and(second(t[0]), *[rng(x, lo, hi) for x in t[1:]])
        if not X_branch(ok):
            err()
            # one replacement stands for the longest possible prefix of a character
            i += 1
            if t and X_branch(second(t[0])):
                i += 1
                for x in t[1:]:
                    if not X_branch(rng(x, lo, hi)):
                        break
                    i += 1
            continue
        base = {1: 0xc0, 2: 0xe0, 3: 0xf0}[n]
        v = zc(c) - base
        for x in t:
            v = v * 64 + (zc(x) - 0x80)
        out.append(z3.simplify(v))
        i += 1 + n
    return mk_str(out)


# ---------------------------------------------------------------- text of values
def sx_str(x):
    """str(x)"""
    t = type(x)
    if t is str:
        return x
    if is_sym(x):
        if t is SymStr:
            return x
        if t is SymInt:
            return SymStr(thunk=lambda: int_str(x))
        if t is SymBool:
            return 'True' if bool(x) else 'False'
        if t is SymFloat:
            return SymStr(thunk=lambda: float_str(x))
        return sx_repr(x)
    f = getattr(t, '__str__', None)
    if f is not None and hasattr(f, '__code__'):
        return f(x)
    if issubclass(t, BaseException):
        if len(x.args) == 1 and has_sym(x.args):
            return sx_str(x.args[0]) if not isinstance(x, KeyError) else sx_repr(x.args[0])
        if has_sym(x.args):
            return sx_repr(x.args)
        return t.__str__(x)
    if issubclass(t, (list, tuple, dict, set, frozenset)) or getattr(t, '_sx_container', False):
        return sx_repr(x)
    r = getattr(t, '__repr__', None)
    if f is object.__str__ and r is not None and hasattr(r, '__code__'):
        return r(x)
    return str(x)


def sx_repr(x):
    t = type(x)
    if is_sym(x):
        if t is SymStr:
            return SymStr(thunk=lambda: str_repr(x))
        if t is SymBytes:
            return SymStr(thunk=lambda: repr_bytes(x))
        return sx_str(x)
    if issubclass(t, (list, tuple, dict)) or getattr(t, '_sx_container', False):
        r = t.__repr__
        if hasattr(r, '__code__') and not getattr(t, '_sx_own', False) and '_sx_own' not in t.__dict__:
            return r(x)
        if issubclass(t, dict):
            items = list(x.items())
            if not has_sym(items) and not _has_custom(items):
                return '{' + ', '.join('%r: %r' % kv for kv in items) + '}'

            def td():
                out = '{'
                for i, (k, v) in enumerate(items):
                    out = fmt_concat(out, ', ' if i else '', sx_repr(k), ': ', sx_repr(v))
                return fmt_concat(out, '}')
            return SymStr(thunk=td)
        items = list(x)
        if not has_sym(items) and not _has_custom(items):
            if getattr(t, '_sx_container', False):
                return repr(set(items)) if items else 'set()'
            return repr(x) if t in (list, tuple) else repr(list(items))
        o, c = ('(', ')') if issubclass(t, tuple) else ('[', ']') if issubclass(t, list) else ('{', '}')

        def tl():
            out = o
            for i, v in enumerate(items):
                out = fmt_concat(out, ', ' if i else '', sx_repr(v))
            return fmt_concat(out, (',' if len(items) == 1 and o == '(' else '') + c)
        return SymStr(thunk=tl)
    f = getattr(t, '__repr__', None)
    if f is not None and hasattr(f, '__code__'):
        return f(x)
    return repr(x)


def _has_custom(items):
    return False


def str_repr(x):
    """repr of a symbolic str; forks per character on what needs escaping"""
    q = 39
    if X_branch(x.contains("'")) and not X_branch(x.contains('"')):
        q = 34
    out = [q]
    for c in x.cs:
        if isinstance(c, int):
            r = repr(chr(c) + '"')[1:-2] if c != 39 else ("\\'" if q == 39 else "'")
            out.extend(map(ord, r))
            continue
        if X_branch(z_eq(c, 92, q)):
            out += [92, c]
        elif X_branch(mk_bool(z3.And(c >= 32, c < 127))):
            out.append(c)
        else:
            v = X().concretise(c)
            out.extend(map(ord, repr(chr(v))[1:-1]))
    return mk_str(out + [q])


def repr_bytes(x):
    vals = bytes(c if isinstance(c, int) else X().concretise(c) for c in x.cs)
    return repr(vals)


# ---------------------------------------------------------------- models
def concrete(v, model):
    """the python value of v in a model"""
    t = type(v)
    if t is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if t is SymFloat:
        r = model.eval(v.e, model_completion=True)
        return float(fractions.Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if t is SymStr:
        if v._cs is None:
            return concrete_lazy(v)
        return ''.join(chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long())
                       for c in v.cs)
    if t is SymBytes:
        return bytes(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long()
                     for c in v.cs)
    if isinstance(v, z3.BoolRef):
        return z3.is_true(model.eval(v, model_completion=True))
    if isinstance(v, z3.ArithRef):
        return model.eval(v, model_completion=True).as_long()
    if issubclass(t, dict):
        return {hashable(concrete(k, model)): concrete(x, model) for k, x in v.items()}
    if issubclass(t, tuple):
        return tuple(concrete(x, model) for x in v)
    if issubclass(t, list):
        return [concrete(x, model) for x in v]
    if issubclass(t, (set, frozenset)) or getattr(t, '_sx_container', False):
        return {hashable(concrete(x, model)) for x in v}
    return v


def hashable(x):
    return x


def concrete_lazy(v):
    return '<lazy>'


def show(x, depth=4):
    """a text for reports; never forks"""
    t = type(x)
    if is_sym(x):
        if t is SymStr:
            if x._cs is None:
                return '<text>'
            return ''.join(chr(c) if isinstance(c, int) else '?' for c in x.cs)
        return '<%s>' % t.__name__
    if depth <= 0:
        return '...'
    if issubclass(t, (tuple, list)):
        return ', '.join(show(i, depth - 1) for i in x)
    try:
        return str(x)
    except core.Stop:
        raise
    except Exception:
        return '<%s>' % t.__name__
