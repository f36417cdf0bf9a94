"""the harness interface shared by the symbolic run (CPython + z3) and the replay
on the real, unmodified code (PyPy).  No z3 here; python 3.9 syntax."""
import importlib

OBLIGATIONS = []


class Obligation(object):
    def __init__(self, fn, name, bounds, cases, thorough, budget, stubs):
        self.fn, self.name, self.bounds = fn, name, bounds
        self.cases = cases
        self.thorough = thorough
        self.budget = budget
        self.stubs = stubs
        self.module = fn.__module__


def obligation(name, bounds='', cases=None, thorough=None, budget=60, stubs=''):
    """cases: list of keyword dicts, each explored separately.
    thorough: the list used by the thorough tier (default: the same).
    budget: seconds of one core for one case (quick tier)."""
    def deco(fn):
        cs = cases if cases is not None else [{}]
        OBLIGATIONS.append(Obligation(fn, name, bounds, cs, thorough if thorough is not None else cs,
                                      budget, stubs))
        return fn
    return deco


def load_module(modname):
    del OBLIGATIONS[:]
    importlib.import_module(modname)
    return list(OBLIGATIONS)


class CheckFailed(Exception):
    pass


class Skip(Exception):
    pass


class Known(Exception):
    """a recorded finding (known_findings.jsonl) shows"""


class Base(object):
    def __init__(self):
        self._undo = []

    def patch(self, obj, name, value):
        """replace an attribute for the duration of this run"""
        d = vars(obj)
        had = name in d
        self._undo.append((obj, name, had, d.get(name)))
        setattr(obj, name, value)

    def undo(self):
        while self._undo:
            obj, name, had, old = self._undo.pop()
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)

    def fn_raises(self, excs, fn, *a, **k):
        """(exception or None, result)"""
        try:
            return None, fn(*a, **k)
        except excs as e:
            return e, None


class Native(Base):
    """S for the concrete run"""
    symbolic = False
    known_ids = ()

    def __init__(self, values):
        Base.__init__(self)
        self.values = values
        self.observed = []
        self.missing = False

    def _v(self, name, default):
        if name in self.values:
            return self.values[name]
        self.missing = True
        return default

    def int(self, name, lo, hi):
        return self._v(name, min(max(0, lo), hi))

    def bool(self, name):
        return self._v(name, False)

    def float(self, name, k, lo, hi):
        return self._v(name, float(min(max(0, lo), hi)))

    def choice(self, name, options):
        return options[self._v(name, 0)]

    def str(self, name, maxlen, minlen=0, alphabet=None):
        c = 'a' if alphabet is None else alphabet[0] if isinstance(alphabet, str) else chr(alphabet[0][0])
        return self._v(name, c * minlen)

    def bytes(self, name, maxlen, minlen=0):
        return self._v(name, b'a' * minlen)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, known=None):
        if not c:
            if known is not None and known[1] and known[0] in self.known_ids:
                raise Known(known[0], msg)
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def observe(self, name, v):
        self.observed.append((name, v))

    def reach(self, name):
        pass

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def same(self, a, b):
        """equal, and of the same types all the way down"""
        ta, tb = type(a), type(b)
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.same(v, b[k]) for k, v in a.items())
        if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        for t in (bool, int, float, str, bytes):
            if isinstance(a, t) or isinstance(b, t):
                return isinstance(a, t) and isinstance(b, t) and a == b
        return ta is tb and a == b

    def contains(self, x, c):
        return x in c


# ---- values <-> json
def enc(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return {'i': str(int(v))}
    if isinstance(v, float):
        return {'f': repr(float(v))}
    if isinstance(v, str):
        return {'s': [ord(c) for c in v]} if any(ord(c) > 126 or ord(c) < 32 for c in v) else str(v)
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, dict):
        return {'d': [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {'set': sorted((enc(x) for x in v), key=repr)}
    return {'r': type(v).__name__}


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        (t, x), = v.items()
        if t == 'i':
            return int(x)
        if t == 'f':
            return float(x)
        if t == 's':
            return ''.join(map(chr, x))
        if t == 'b':
            return bytes.fromhex(x)
        if t == 'd':
            return {dec(k): dec(y) for k, y in x}
        raise ValueError(t)
    return v


def canon(e):
    """an order-independent form of an encoded value, to compare observations"""
    if isinstance(e, list):
        return [canon(x) for x in e]
    if isinstance(e, dict):
        (t, x), = e.items()
        if t == 'd':
            return {'d': sorted(([canon(k), canon(y)] for k, y in x), key=repr)}
        if t == 'set':
            return {'set': sorted((canon(y) for y in x), key=repr)}
    return e
