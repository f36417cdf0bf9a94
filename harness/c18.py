"""C18 the header mapping"""
from symx.api import obligation
from pyswagger.utils import CaseInsensitiveDict

ACTS = ['set', 'del', 'update', 'pop', 'setdefault', 'clear', 'popitem']
AB = 'aAb'


def fold(S, k):
    return k.lower()


class Model(object):
    """a list of (folded name, spelling, value)"""
    def __init__(self):
        self.l = []

    def find(self, k):
        f = k.lower()
        for i, e in enumerate(self.l):
            if e[0] == f:
                return i
        return -1

    def set(self, k, v):
        i = self.find(k)
        if i < 0:
            self.l.append([k.lower(), k, v])
        else:
            self.l[i] = [k.lower(), k, v]

    def delete(self, k):
        i = self.find(k)
        if i < 0:
            return False
        self.l.pop(i)
        return True


def agree(S, d, m, probe):
    n = len(m.l)
    S.check(len(d) == n, 'the length is another one')
    S.check(bool(d) == bool(n), 'it is empty, but counts as true, or the other way round')
    keys = list(d)
    S.check(S.same(sorted(keys), sorted(e[1] for e in m.l)), 'iteration gives other names')
    S.check(S.same(sorted(d.keys()), sorted(keys)), 'keys() and iteration differ')
    items = list(d.items())
    S.check(len(items) == n and S.all(*[S.any(*[S.all(S.same(k, e[1]), S.same(v, e[2])) for e in m.l]) for k, v in items]), 'items() gives other entries')
    S.check(S.same(sorted(d.values()), sorted(e[2] for e in m.l)), 'values() gives other values')
    i = m.find(probe)
    S.check((probe in d) == (i >= 0), 'membership depends on the spelling')
    e, v = S.fn_raises(KeyError, lambda: d[probe])
    S.check((e is None) == (i >= 0), 'access depends on the spelling')
    if i >= 0:
        S.check(S.same(v, m.l[i][2]), 'another value is found')
        S.check(S.same(d.get(probe), m.l[i][2]), 'get() finds another value')
    else:
        S.check(d.get(probe) is None and d.get(probe, 'dflt') == 'dflt', 'get() invents a value')


def step(S, d, m, act, i, alphabet, n):
    if act == 'clear':
        d.clear()
        m.l = []
        return
    if act == 'popitem':
        e, kv = S.fn_raises(KeyError, d.popitem)
        S.check((e is None) == bool(m.l), 'an entry is popped from an empty mapping')
        if e is None:
            j = m.find(kv[0])
            S.check(j >= 0 and S.all(S.same(m.l[j][1], kv[0]), S.same(m.l[j][2], kv[1])), 'an entry is popped that is not there')
            m.l.pop(j)
        return
    k, v = S.str('k%d' % i, n, n, alphabet), S.int('v%d' % i, 0, 99)
    if act == 'set':
        d[k] = v
        m.set(k, v)
    elif act == 'del':
        def rm():
            del d[k]
        e, _ = S.fn_raises(KeyError, rm)
        S.check((e is None) == m.delete(k), 'deletion depends on the spelling')
    elif act == 'update':
        k2 = S.str('kk%d' % i, n, n, alphabet)
        how = S.choice('how%d' % i, ['pairs', 'dict', 'same'])
        if how == 'dict':
            x = {}
            x[k] = v
            x[k2] = v + 1
            pairs = list(x.items())
            d.update(x)
        else:
            pairs = [(k, v), (k2, v + 1)]
            if how == 'pairs':
                d.update(pairs)
            else:
                x = CaseInsensitiveDict()
                x[k] = v
                x[k2] = v + 1
                d.update(x)
        for a, b in pairs:
            m.set(a, b)
    elif act == 'pop':
        j = m.find(k)
        S.check(S.same(d.pop(k, None), m.l[j][2] if j >= 0 else None), 'another value is popped')
        m.delete(k)
    elif act == 'setdefault':
        j = m.find(k)
        S.check(S.same(d.setdefault(k, v), m.l[j][2] if j >= 0 else v), 'setdefault gives another value')
        if j < 0:
            m.set(k, v)


@obligation('history', bounds='every history of 3 changes (set, delete, update by 2, pop, setdefault, clear, popitem), names of one letter of "aAb", looked up under any such name',
            cases=[dict(acts=[a, b]) for a in ('set', 'update') for b in ACTS if (a, b) != ('update', 'update')],
            thorough=[dict(acts=[a, b, c]) for a in ('set', 'update') for b in ACTS for c in ACTS])
def history(S, acts):
    d, m = CaseInsensitiveDict(), Model()
    for i, a in enumerate(acts):
        step(S, d, m, a, i, AB, 1)
    step(S, d, m, S.choice('last', ['set', 'del', 'pop', 'setdefault', 'popitem']), len(acts), AB, 1)
    agree(S, d, m, S.str('probe', 1, 1, AB))


@obligation('names', bounds='two entries with names of 0 to 3 characters of "aAzZ-_", or 1 ASCII character, looked up under any such name',
            cases=[dict(n=n, top=0) for n in (0, 1, 2, 3)] + [dict(n=1, top=0x7f)], thorough=[dict(n=n, top=0) for n in (0, 1, 2, 3)] + [dict(n=1, top=0xff)])
def names(S, n, top):
    alphabet = [(0, top)] if top else 'aAzZ-_' if n < 3 else 'aAb'
    d, m = CaseInsensitiveDict(), Model()
    for i in range(2):
        step(S, d, m, 'set', i, alphabet, n)
    agree(S, d, m, S.str('probe', n, n, alphabet))


@obligation('empty', bounds='the empty mapping, and two mappings that share nothing')
def empty(S):
    a, b = CaseInsensitiveDict(), CaseInsensitiveDict()
    k, p = S.str('k', 2, 0, 'aAb'), S.str('p', 2, 0, 'aAb')
    agree(S, a, Model(), p)
    a[k] = 1
    S.check(len(b) == 0 and p not in b and list(b.items()) == [], 'an entry appears in another mapping')


SPECIAL = ['\u00e9', '\u00df', '\u1e9e', '\u00b5', '\u0131', '\u017f', '\u212a', '\u03c2', '\ufb01', '\u01c5']


@obligation('other-letters', bounds='an entry whose name has one of 10 special letters (also such with irregular capitals) before, after or without an ASCII letter: found under the same name, replaced, deleted')
def letters(S):
    c = S.choice('c', SPECIAL)
    t = S.str('t', 1, 1, 'aB-')
    k = S.choice('at', [c, c + t, t + c])
    v = S.int('v', 0, 99)
    d = CaseInsensitiveDict()
    d[k] = v
    S.check(S.all(k in d, len(d) == 1), 'the entry is not found')
    S.check(S.same(d[k], v) and S.same(d.get(k), v) and S.same(list(d.items()), [(k, v)]), 'another value is found')
    d[k] = v + 1
    S.check(S.same(list(d.items()), [(k, v + 1)]), 'the entry is there twice')
    del d[k]
    S.check(len(d) == 0 and k not in d, 'the entry is not deleted')
