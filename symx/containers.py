"""dict and set of the instrumented world.

SDict is a dict that also accepts symbolic keys: while every key is concrete it is
a plain dict; a symbolic key turns it into an association list whose lookups fork
on key equality.  SSet keeps insertion order (as sets of the PyPy under test do).
"""
from . import core
from .core import Unsupported
from .values import (is_sym, SymStr, SymBytes, SymSeq, SymInt, SymBool, SymFloat, b_or, b_and,
                     X_branch, zbool, sx_repr)

_MISSING = object()


def key_sym(k):
    t = type(k)
    if t is str or t is int:
        return False
    if issubclass(t, tuple):
        return any(key_sym(i) for i in k)
    # (a class with a __hash__ of its own: may hash symbolic parts)
    return is_sym(k) or hasattr(t.__hash__, '__code__') and t is not SFrozen and not isinstance(k, type)


def key_eq(a, b):
    """a == b for keys, as bool/SymBool"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return b_and(*[key_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def _forced(k):
    if type(k) is SymStr and k._cs is None:
        k.cs
        if all(isinstance(c, int) for c in k.cs):
            return ''.join(map(chr, k.cs))
    if type(k) is SymBool:
        return bool(k)
    return k


class SDictMeta(type):
    def __instancecheck__(cls, o):
        if cls is SDict:
            return type.__instancecheck__(dict, o)
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is SDict:
            return type.__subclasscheck__(dict, c)
        return type.__subclasscheck__(cls, c)


class SDict(dict, metaclass=SDictMeta):
    _sx_own = True
    __slots__ = ('_sx', '__dict__', '__weakref__')

    def __new__(cls, *a, **k):
        o = dict.__new__(cls)
        object.__setattr__(o, '_sx', None)
        return o

    def __init__(self, *a, **k):
        if len(a) > 1:
            raise TypeError('dict expected at most 1 argument, got %d' % len(a))
        if a:
            SDict.update(self, a[0])
        for kk, v in k.items():
            SDict.__setitem__(self, kk, v)

    @staticmethod
    def fromkeys(keys, v=None):
        d = SDict()
        for k in keys:
            d[k] = v
        return d

    # -- representation
    def _sx_x(self):
        return object.__getattribute__(self, '_sx')

    def _sx_to(self):
        if self._sx_x() is None:
            object.__setattr__(self, '_sx', [[k, v] for k, v in dict.items(self)])
            dict.clear(self)

    def _sx_back(self):
        x = self._sx_x()
        if x is not None and not any(key_sym(k) for k, _ in x):
            object.__setattr__(self, '_sx', None)
            for k, v in x:
                dict.__setitem__(self, k, v)

    def _sx_find(self, k):
        """the [k, v] cell (symbolic mode); forks on equality"""
        for c in self._sx_x():
            r = key_eq(c[0], k)
            if r is NotImplemented:
                continue
            if X_branch(r):
                return c
        return None

    def _sx_lookup(self, k):
        k = _forced(k)
        if self._sx_x() is None:
            if not key_sym(k):
                return dict.get(self, k, _MISSING)
            for kk, v in dict.items(self):
                if X_branch(key_eq(kk, k)):
                    return v
            return _MISSING
        hash_check(k)
        c = self._sx_find(k)
        return _MISSING if c is None else c[1]

    # -- mapping
    def __getitem__(self, k):
        v = SDict._sx_lookup(self, k)
        if v is _MISSING:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return v

    def __setitem__(self, k, v):
        k = _forced(k)
        if self._sx_x() is None:
            if not key_sym(k):
                dict.__setitem__(self, k, v)
                return
            self._sx_to()
        hash_check(k)
        c = self._sx_find(k)
        if c is None:
            self._sx_x().append([k, v])
        else:
            c[1] = v

    def __delitem__(self, k):
        k = _forced(k)
        if self._sx_x() is None:
            if not key_sym(k):
                dict.__delitem__(self, k)
                return
            self._sx_to()
        c = self._sx_find(k)
        if c is None:
            raise KeyError(k)
        x = self._sx_x()
        x[:] = [d for d in x if d is not c]
        self._sx_back()

    def contains(self, k):
        k = _forced(k)
        if self._sx_x() is None and not key_sym(k):
            return dict.__contains__(self, k)
        hash_check(k)
        return b_or(*[key_eq(kk, k) for kk in SDict._sx_keys(self)])

    def __contains__(self, k):
        return bool(SDict.contains(self, k))

    has_key = __contains__

    def _sx_keys(self):
        x = self._sx_x()
        return list(dict.keys(self)) if x is None else [c[0] for c in x]

    def __iter__(self):
        return self._sx_iter(0)

    def __reversed__(self):
        return iter(list(SDict._sx_keys(self))[::-1])

    def __len__(self):
        x = self._sx_x()
        return dict.__len__(self) if x is None else len(x)

    def __bool__(self):
        return SDict.__len__(self) > 0

    def keys(self):
        return SKeys(self)

    def values(self):
        return SValues(self)

    def items(self):
        return SItems(self)

    def _sx_items(self):
        x = self._sx_x()
        return dict.items(self) if x is None else [(c[0], c[1]) for c in x]

    def _sx_iter(self, i):
        """keys (0), values (1) or items (None)"""
        x = self._sx_x()
        if x is None:
            return iter((dict.keys, dict.values)[i](self) if i is not None else dict.items(self))
        return self._sx_iterx(list(x), i)

    def _sx_iterx(self, cells, i):
        n = len(cells)
        for c in cells:
            if SDict.__len__(self) != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield (c[0], c[1]) if i is None else c[i]

    def get(self, k, d=None):
        v = SDict._sx_lookup(self, k)
        return d if v is _MISSING else v

    def setdefault(self, k, d=None):
        v = SDict._sx_lookup(self, k)
        if v is _MISSING:
            SDict.__setitem__(self, k, d)
            return d
        return v

    def pop(self, k, *d):
        v = SDict._sx_lookup(self, k)
        if v is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        SDict.__delitem__(self, k)
        return v

    def popitem(self):
        x = self._sx_x()
        if x is None:
            return dict.popitem(self)
        if not x:
            raise KeyError('popitem(): dictionary is empty')
        k, v = x.pop()
        return (k, v)

    def update(self, *a, **k):
        if len(a) > 1:
            raise TypeError('update expected at most 1 argument')
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for kk in list(o.keys()):
                    SDict.__setitem__(self, kk, o[kk])
            else:
                for kk, v in o:
                    SDict.__setitem__(self, kk, v)
        for kk, v in k.items():
            SDict.__setitem__(self, kk, v)

    def clear(self):
        dict.clear(self)
        object.__setattr__(self, '_sx', None)

    def copy(self):
        d = SDict()
        SDict.update(d, self)
        return d

    def __ior__(self, o):
        SDict.update(self, o)
        return self

    def _sx_protocol(self, name):
        """dict has none of the special methods of copying, they are looked up with __getattr__, if any"""
        t = type(self)
        f = getattr(t, '__getattr__', None)
        if f is not None:
            for n in (name, '__getstate__'):
                try:
                    f(self, n)
                except AttributeError:
                    pass
        return t.__new__(t)

    def _sx_state(self, d, pairs, state):
        t = type(self)
        if t is not SDict and state:
            d.__dict__.update(state)
        put = SDict.__setitem__ if t.__setitem__ is SDict.__setitem__ else t.__setitem__
        for k, v in pairs:
            put(d, k, v)
        return d

    def __copy__(self):
        d = self._sx_protocol('__reduce_ex__')
        return self._sx_state(d, list(SDict._sx_items(self)), dict(self.__dict__) if type(self) is not SDict else None)

    def __deepcopy__(self, memo):
        import copy
        d = self._sx_protocol('__deepcopy__')
        memo[id(self)] = d
        return self._sx_state(d, [(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in SDict._sx_items(self)],
                           copy.deepcopy(self.__dict__, memo) if type(self) is not SDict else None)

    def __reduce_ex__(self, p):
        raise Unsupported('pickling')

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        out = []
        for k, v in SDict._sx_items(self):
            w = lookup(o, k)
            if w is _MISSING:
                return False
            r = v == w
            if r is False:
                return False
            out.append(r)
        return b_and(*out)

    def __ne__(self, o):
        r = SDict.__eq__(self, o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return str(sx_repr(self))

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        d = SDict.copy(self)
        SDict.update(d, o)
        return d


SDict.__name__ = 'dict'


def hash_check(k):
    t = type(k)
    if issubclass(t, (list, dict)) and not is_sym(k) and getattr(t, '__hash__', None) is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)


def lookup(d, k):
    if SDict in type(d).__mro__:
        return SDict._sx_lookup(d, k)
    k = _forced(k)
    if not key_sym(k):
        return dict.get(d, k, _MISSING)
    for kk, v in dict.items(d):
        if X_branch(key_eq(kk, k)):
            return v
    return _MISSING


class SKeys(object):
    """keys() view"""
    _sx_container = True
    _sx_own = True

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return self.d._sx_iter(0)

    def __reversed__(self):
        return iter(self.d._sx_keys()[::-1])

    def __len__(self):
        return SDict.__len__(self.d)

    def __contains__(self, k):
        return SDict.__contains__(self.d, k)

    def contains(self, k):
        return SDict.contains(self.d, k)

    def __eq__(self, o):
        return SSet(self) == SSet(o)

    def __ne__(self, o):
        return not (self == o)

    def __sub__(self, o): return SSet(self) - SSet(o)
    def __and__(self, o): return SSet(self) & SSet(o)
    def __or__(self, o): return SSet(self) | SSet(o)
    def __xor__(self, o): return SSet(self) ^ SSet(o)
    def __rsub__(self, o): return SSet(o) - SSet(self)
    def __rand__(self, o): return SSet(o) & SSet(self)
    def __ror__(self, o): return SSet(o) | SSet(self)
    def __le__(self, o): return SSet(self) <= SSet(o)
    def __ge__(self, o): return SSet(self) >= SSet(o)
    def __lt__(self, o): return SSet(self) < SSet(o)
    def __gt__(self, o): return SSet(self) > SSet(o)

    def isdisjoint(self, o):
        return SSet(self).isdisjoint(o)

    __hash__ = None

    def __repr__(self):
        return 'dict_keys(%s)' % (sx_repr(list(self)),)


class SItems(SKeys):
    """items() view"""

    def __iter__(self):
        return self.d._sx_iter(None)

    def __reversed__(self):
        return iter(list(self.d._sx_items())[::-1])

    def contains(self, k):
        if type(k) is not tuple or len(k) != 2:
            return False
        v = SDict._sx_lookup(self.d, k[0])
        return False if v is _MISSING else b_or(v is k[1], v == k[1])

    def __contains__(self, k):
        return bool(self.contains(k))

    def __repr__(self):
        return 'dict_items(%s)' % (sx_repr(list(self)),)


class SValues(object):
    """values() view"""
    _sx_container = True
    _sx_own = True

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return self.d._sx_iter(1)

    def __reversed__(self):
        return iter([v for k, v in self.d._sx_items()][::-1])

    def __len__(self):
        return SDict.__len__(self.d)

    def __repr__(self):
        return 'dict_values(%s)' % (sx_repr(list(self)),)


class SOrdered(SDict):
    """collections.OrderedDict"""

    def move_to_end(self, key, last=True):
        if SDict._sx_lookup(self, key) is _MISSING:
            raise KeyError(key)
        self._sx_to()
        x = self._sx_x()
        c = self._sx_find(_forced(key))
        x[:] = [d for d in x if d is not c]
        x.insert(len(x) if last else 0, c)
        self._sx_back()

    def popitem(self, last=True):
        self._sx_to()
        x = self._sx_x()
        try:
            if not x:
                raise KeyError('dictionary is empty')
            return tuple(x.pop(-1 if last else 0))
        finally:
            self._sx_back()

    def copy(self):
        return SOrdered(self)

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in keys:
            d[k] = value
        return d

    def __eq__(self, o):
        r = SDict.__eq__(self, o)
        if r is NotImplemented or not isinstance(o, SOrdered):
            return r
        if len(self) != len(o):
            return False
        return b_and(r, *[key_eq(a, b) for a, b in zip(self, o)])

    def __repr__(self):
        if not len(self):
            return 'OrderedDict()'
        return sx_concat('OrderedDict(', sx_repr([tuple(i) for i in self.items()]), ')')

    __hash__ = None


class SDefault(SDict):
    """collections.defaultdict"""

    def __init__(self, default_factory=None, *a, **k):
        if default_factory is not None and not callable(default_factory):
            raise TypeError('first argument must be callable or None')
        self.default_factory = default_factory
        SDict.__init__(self, *a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        SDict.__setitem__(self, k, v)
        return v

    def copy(self):
        return SDefault(self.default_factory, self)

    def __deepcopy__(self, memo):
        import copy
        d = SDefault(self.default_factory)
        memo[id(self)] = d
        for k, v in SDict._sx_items(self):
            SDict.__setitem__(d, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return d

    def __repr__(self):
        return sx_concat('defaultdict(%r, ' % (self.default_factory,), sx_repr(SDict.copy(self)), ')')


class SCounter(SDict):
    """collections.Counter"""

    def __init__(self, iterable=None, **k):
        SDict.__init__(self)
        self.update(iterable, **k)

    def __missing__(self, k):
        return 0

    def update(self, iterable=None, **k):
        if iterable is not None:
            if isinstance(iterable, dict):
                for x, n in iterable.items():
                    self[x] = self[x] + n
            else:
                for x in iterable:
                    self[x] = self[x] + 1
        for x, n in k.items():
            self[x] = self[x] + n

    def subtract(self, iterable=None, **k):
        o = SCounter(iterable, **k)
        for x, n in o.items():
            self[x] = self[x] - n

    def elements(self):
        for x, n in list(self.items()):
            for _ in range(n):
                yield x

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda kv: kv[1], reverse=True)[:n]

    def copy(self):
        return SCounter(self)

    def _op(self, o, f):
        r = SCounter()
        for x in list(self) + [y for y in o if y not in self]:
            n = f(self[x], o[x])
            if n > 0:
                r[x] = n
        return r

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __and__(self, o): return self._op(o, min)
    def __or__(self, o): return self._op(o, max)


SOrdered.__name__ = 'OrderedDict'
SDefault.__name__ = 'defaultdict'
SCounter.__name__ = 'Counter'


def sx_concat(*ps):
    from .values import fmt_concat
    return str(fmt_concat(*ps))


class SSetMeta(type):
    def __instancecheck__(cls, o):
        if cls is SSet:
            return type.__instancecheck__(SSet, o) or isinstance(o, set)
        if cls is SFrozen:
            return type.__instancecheck__(SFrozen, o) or isinstance(o, frozenset)
        return type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        if cls is SSet:
            return type.__subclasscheck__(SSet, c) or issubclass(c, set)
        if cls is SFrozen:
            return type.__subclasscheck__(SFrozen, c) or issubclass(c, frozenset)
        return type.__subclasscheck__(cls, c)


def _elems(o):
    return list(o)


class SAnySet(object, metaclass=SSetMeta):
    _sx_container = True
    _sx_own = True

    def __init__(self, it=()):
        self._d = SDict()
        for x in it:
            self._add(x)

    def _add(self, x):
        if not is_sym(x) and not key_sym(x):
            hash(x)
        self._d[x] = None

    def _mk(self, it):
        s = SFrozen() if isinstance(self, SFrozen) else SSet()
        for x in it:
            s._add(x)
        return s

    def __iter__(self): return iter(list(self._d))
    def __len__(self): return len(self._d)
    def __bool__(self): return len(self._d) > 0
    def __contains__(self, x): return x in self._d
    def contains(self, x): return self._d.contains(x)
    def copy(self): return self._mk(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return self._mk([copy.deepcopy(x, memo) for x in self])

    def union(self, *os):
        s = self._mk(self)
        for o in os:
            for x in _elems(o):
                s._add(x)
        return s

    def intersection(self, *os):
        s = list(self)
        for o in os:
            o = o if type(o) in SETS else SSet(o)
            s = [x for x in s if x in o]
        return self._mk(s)

    def difference(self, *os):
        s = list(self)
        for o in os:
            o = o if type(o) in SETS else SSet(o)
            s = [x for x in s if x not in o]
        return self._mk(s)

    def symmetric_difference(self, o):
        o = SSet(o)
        return (self - o) | (o - self)

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in SSet(o))

    def isdisjoint(self, o):
        return not self.intersection(o)

    def _ok(self, o):
        return isinstance(o, (SAnySet, set, frozenset, SKeys))

    def __or__(self, o): return self.union(o) if self._ok(o) else NotImplemented
    def __and__(self, o): return self.intersection(o) if self._ok(o) else NotImplemented
    def __sub__(self, o): return self.difference(o) if self._ok(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._ok(o) else NotImplemented
    def __ror__(self, o): return SSet(o).union(self) if self._ok(o) else NotImplemented
    def __rand__(self, o): return SSet(o).intersection(self) if self._ok(o) else NotImplemented
    def __rsub__(self, o): return SSet(o).difference(self) if self._ok(o) else NotImplemented

    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._ok(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return str(sx_repr(self))


class SSet(SAnySet):
    def add(self, x): self._add(x)
    def discard(self, x): self._d.pop(x, None)

    def remove(self, x):
        del self._d[x]

    def pop(self):
        for x in self:
            del self._d[x]
            return x
        raise KeyError('pop from an empty set')

    def clear(self): self._d.clear()

    def update(self, *os):
        for o in os:
            for x in _elems(o):
                self._add(x)

    def difference_update(self, *os):
        self._d = self.difference(*os)._d

    def intersection_update(self, *os):
        self._d = self.intersection(*os)._d

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference_update(self, o):
        self._d = self.symmetric_difference(o)._d

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    __hash__ = None


class SFrozen(SAnySet):
    def __hash__(self):
        return hash(frozenset(self))


SFrozen.__name__ = 'frozenset'
SETS = (SSet, SFrozen, SKeys, SItems)
SSet.__name__ = 'set'
