"""S for the symbolic run"""
import z3

from . import api, core
from .values import (SymBool, SymInt, SymFloat, SymStr, SymBytes, is_sym, mk_bool, mk_str, mk_bytes,
                     b_and, b_or, b_not, zbool, truth, in_ranges, zint, zreal)

FULL = [(0, 0xd7ff), (0xe000, 0x10ffff)]


def alpha_ranges(a):
    if a is None:
        return FULL
    if isinstance(a, str):
        from .values import _ranges
        return _ranges(sorted(set(map(ord, a))))
    return a


def force(v, depth=8):
    """compute texts that are still lazy"""
    t = type(v)
    if t is SymStr:
        v.cs
        return v
    if depth > 0:
        if issubclass(t, dict):
            for k, x in v.items():
                force(k, depth - 1)
                force(x, depth - 1)
        elif issubclass(t, (list, tuple)):
            for x in v:
                force(x, depth - 1)
    return v


class Symbolic(api.Base):
    symbolic = True

    def __init__(self, ex):
        api.Base.__init__(self)
        self.ex = ex

    def _in(self, name, kind, v):
        if name in self.ex.names:
            raise RuntimeError('input %s declared twice' % name)
        self.ex.names.add(name)
        self.ex.inputs.append((name, kind, v))
        return v

    def int(self, name, lo, hi):
        e = z3.Int(name)
        v = self._in(name, 'int', SymInt(e))
        self.ex.domain(z3.And(e >= lo, e <= hi))
        return v

    def bool(self, name):
        return self._in(name, 'bool', SymBool(z3.Bool(name)))

    def float(self, name, k, lo, hi):
        """a multiple of 2**-k in [lo, hi]"""
        e = z3.Int(name)
        v = self._in(name, 'float', SymFloat(z3.ToReal(e) / z3.RealVal(2 ** k), k, e))
        self.ex.domain(z3.And(e >= int(lo * 2 ** k), e <= int(hi * 2 ** k)))
        return v

    def choice(self, name, options):
        e = z3.Int(name)
        self._in(name, 'choice', SymInt(e))
        self.ex.domain(z3.And(e >= 0, e < len(options)))
        return options[self.ex.concretise(e)]

    def _chars(self, name, maxlen, minlen, ranges):
        n = z3.Int(name + '#len')
        self.ex.domain(z3.And(n >= minlen, n <= maxlen))
        n = self.ex.concretise(n)
        cs = [z3.Int('%s#%d' % (name, i)) for i in range(n)]
        for c in cs:
            self.ex.domain(zbool(in_ranges(c, ranges)))
        return cs

    def str(self, name, maxlen, minlen=0, alphabet=None):
        cs = self._chars(name, maxlen, minlen, alpha_ranges(alphabet))
        return self._in(name, 'str', mk_str(cs))

    def bytes(self, name, maxlen, minlen=0):
        cs = self._chars(name, maxlen, minlen, [(0, 255)])
        return self._in(name, 'bytes', mk_bytes(cs))

    def assume(self, c):
        self.ex.assume(zbool(truth(c)))

    def check(self, c, msg, known=None):
        if known is not None:
            known = (known[0], zbool(truth(known[1])))
        self.ex.check(zbool(truth(c)), msg, known)

    def fail(self, msg):
        self.ex.fail(msg)
        raise core.Infeasible()

    def observe(self, name, v):
        self.ex.observed.append((name, force(v)))

    def reach(self, name):
        self.ex.reached[name] = self.ex.reached.get(name, 0) + 1

    def all(self, *xs):
        return b_and(*[truth(x) for x in xs])

    def any(self, *xs):
        return b_or(*[truth(x) for x in xs])

    def not_(self, x):
        return b_not(truth(x))

    def implies(self, a, b):
        return b_or(b_not(truth(a)), truth(b))

    def iff(self, a, b):
        return mk_bool(zbool(truth(a)) == zbool(truth(b)))

    def ite(self, c, a, b):
        c = truth(c)
        if isinstance(c, bool) and not is_sym(c):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int):
            return SymInt(z3.If(zbool(c), zint(a), zint(b)))
        return a if c else b

    def same(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            out = []
            for k, v in a.items():
                if k not in b:
                    return False
                out.append(self.same(v, b[k]))
            return b_and(*out)
        if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return b_and(*[self.same(x, y) for x, y in zip(a, b)])
        for t in (bool, int, float, str, bytes):
            if isinstance(a, t) or isinstance(b, t):
                if not (isinstance(a, t) and isinstance(b, t)):
                    return False
                return truth(a == b)
        return type(a) is type(b) and truth(a == b)

    def contains(self, x, c):
        from .calls import contains
        return contains(x, c)
