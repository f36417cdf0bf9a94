"""`re` for symbolic text: backtracking matcher over the standard parse tree"""
import re as _re
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import re._parser as _p
    import re._constants as C

from .core import Unsupported
from .values import (is_sym, codes, mk_str, mk_bytes, X_branch, in_ranges, c_eq, b_not, b_or, mk_bool,
                     SymStr, concretise_str, _ranges, is_space, cindex)

for _n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE', 'X', 'ASCII', 'A',
           'UNICODE', 'U', 'LOCALE', 'L', 'DEBUG', 'RegexFlag', 'error', 'escape', 'purge'):
    globals()[_n] = getattr(_re, _n)


class Match(object):
    def __init__(self, pat, s, regs, pos, endpos):
        self.re, self.string, self._regs, self.pos, self.endpos = pat, s, regs, pos, endpos
        self.lastindex = None

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g < 0 or g > self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, i, d=None):
        r = self._regs.get(i)
        return d if r is None else self.string[r[0]:r[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        r = tuple(self._get(self._idx(g)) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = lambda self, g: self._get(self._idx(g))

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        r = self._regs.get(self._idx(g))
        return (-1, -1) if r is None else r

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]


class Pattern(object):
    def __init__(self, pattern, flags=0):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self._re = _re.compile(pattern, flags)
            self._tree = _p.parse(pattern, flags)
        self.pattern = pattern
        self.flags = self._tree.state.flags
        self.groups = self._re.groups
        self.groupindex = dict(self._re.groupindex)

    # -- engine
    def _m(self, nodes, cs, i, regs, k):
        """match nodes from position i, then k(i, regs)"""
        if not nodes:
            return k(i, regs)
        (op, av), rest = nodes[0], nodes[1:]
        nxt = lambda j, r: self._m(rest, cs, j, r, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(cs) or not X_branch(self._one(op, av, cs[i])):
                return None
            return nxt(i + 1, regs)
        if op is C.SUBPATTERN:
            g, add, dele, p = av
            if add or dele:
                raise Unsupported('inline regex flags')

            def after(j, r):
                if g is not None:
                    r = dict(r)
                    r[g] = (i, j)
                return nxt(j, r)
            return self._m(list(p), cs, i, regs, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), cs, i, regs, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is C.MAX_REPEAT

            def rep(n, j, r):
                def more():
                    if hi is C.MAXREPEAT or n < hi:
                        return self._m(p, cs, j, r,
                                       lambda j2, r2: rep(n + 1, j2, r2) if (j2 > j or n < lo) else None)
                    return None
                if n < lo:
                    return more()
                if greedy:
                    x = more()
                    return x if x is not None else nxt(j, r)
                x = nxt(j, r)
                return x if x is not None else more()
            return rep(0, i, regs)
        if op is C.AT:
            return nxt(i, regs) if self._at(av, cs, i) else None
        if op is C.GROUPREF:
            r = regs.get(av)
            if r is None:
                return None
            for j in range(r[0], r[1]):
                if i >= len(cs) or not X_branch(c_eq(cs[j], cs[i])):
                    return None
                i += 1
            return nxt(i, regs)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported('lookbehind')
                x = self._m(list(p), cs, i - lo, regs, lambda j, r: (j, r)) if i >= lo else None
            else:
                x = self._m(list(p), cs, i, regs, lambda j, r: (j, r))
            if op is C.ASSERT:
                return None if x is None else nxt(i, x[1])
            return nxt(i, regs) if x is None else None
        raise Unsupported('regex op %s' % op)

    def _one(self, op, av, c):
        ic = self.flags & _re.IGNORECASE
        if op is C.LITERAL or op is C.NOT_LITERAL:
            r = self._lit(av, c, ic)
            return r if op is C.LITERAL else b_not(r)
        if op is C.ANY:
            if self.flags & _re.DOTALL:
                return True
            return b_not(c_eq(c, 10))
        neg = False
        alts = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                alts.append(self._lit(a, c, ic))
            elif o is C.RANGE:
                rs = [a]
                if ic:
                    rs = _ranges(_casevars(range(a[0], a[1] + 1)))
                alts.append(in_ranges(c, rs))
            elif o is C.CATEGORY:
                alts.append(self._cat(a, c))
            else:
                raise Unsupported('regex class %s' % o)
        r = b_or(*alts)
        return b_not(r) if neg else r

    def _lit(self, av, c, ic):
        if ic:
            return b_or(*[c_eq(c, v) for v in sorted(set(_casevars([av])))])
        return c_eq(c, av)

    def _cat(self, a, c):
        neg = a in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD)
        uni = isinstance(self.pattern, str) and not (self.flags & _re.ASCII)
        if a in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
            rs = [(48, 57)]
            f = str.isdecimal
        elif a in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            r = is_space(c, not uni)
            return b_not(r) if neg else r
        elif a in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
            rs = [(48, 57), (65, 90), (95, 95), (97, 122)]
            f = str.isalnum
        else:
            raise Unsupported('regex category')
        if not uni:
            r = in_ranges(c, rs)
        elif isinstance(c, int):
            r = in_ranges(c, rs) if c < 128 else f(chr(c))
        elif X_branch(mk_bool(c < 128)):
            r = in_ranges(c, rs)
        elif X_branch(mk_bool(c >= 0x800)):
            raise Unsupported('regex category above U+0800')
        else:
            r = in_ranges(c, _ranges([v for v in range(128, 0x800) if f(chr(v))]))
        return b_not(r) if neg else r

    def _at(self, av, cs, i):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            if av is C.AT_BEGINNING and self.flags & _re.MULTILINE:
                return X_branch(c_eq(cs[i - 1], 10))
            return False
        if av is C.AT_END_STRING:
            return i == len(cs)
        if av is C.AT_END:
            if i == len(cs):
                return True
            if self.flags & _re.MULTILINE:
                return X_branch(c_eq(cs[i], 10))
            return i == len(cs) - 1 and X_branch(c_eq(cs[i], 10))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = lambda j: 0 <= j < len(cs) and X_branch(self._cat(C.CATEGORY_WORD, cs[j]))
            r = w(i - 1) != w(i)
            return r if av is C.AT_BOUNDARY else not r
        raise Unsupported('regex anchor')

    def _run(self, s, i, endpos, full=False):
        cs = s.cs[:endpos]
        k = (lambda j, r: (j, r) if j == len(cs) else None) if full else (lambda j, r: (j, r))
        r = self._m(list(self._tree), cs, i, {}, k)
        if r is None:
            return None
        regs = dict(r[1])
        regs[0] = (i, r[0])
        return Match(self, s, regs, i, endpos)

    # -- api
    def _prep(self, s, pos, endpos):
        n = len(s)
        if isinstance(self.pattern, str) != isinstance(s, str):
            raise TypeError('cannot use a string pattern on a bytes-like object')
        return min(max(cindex(pos), 0), n), n if endpos is None else min(max(cindex(endpos), 0), n)

    def match(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self._re.match(s, pos, *([] if endpos is None else [endpos]))
        pos, endpos = self._prep(s, pos, endpos)
        return self._run(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self._re.fullmatch(s, pos, *([] if endpos is None else [endpos]))
        pos, endpos = self._prep(s, pos, endpos)
        return self._run(s, pos, endpos, True)

    def search(self, s, pos=0, endpos=None):
        if not is_sym(s):
            return self._re.search(s, pos, *([] if endpos is None else [endpos]))
        pos, endpos = self._prep(s, pos, endpos)
        for i in range(pos, endpos + 1):
            m = self._run(s, i, endpos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not is_sym(s):
            yield from self._re.finditer(s, pos, *([] if endpos is None else [endpos]))
            return
        i = 0
        n = len(s)
        while i <= n:
            m = self.search(s, i)
            if m is None:
                return
            yield m
            a, b = m.span()
            i = b if b > a else b + 1

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or s[:0])
            else:
                out.append(m.groups(s[:0]))
        return out

    def _mk(self, s, cs):
        return mk_str(cs) if isinstance(s, str) else mk_bytes(cs)

    def _template(self, repl):
        """pieces of a replacement template: texts and group numbers"""
        byt = not isinstance(repl, str)
        t = repl.decode('latin-1') if byt else repl
        out = []
        for lit, name, num, esc in _re.findall(r'([^\\]+)|\\g<(\w+)>|\\(\d\d?)|\\(.)', t, _re.S):
            if lit or esc:
                if esc and esc.isalnum():
                    if esc not in 'abfnrtv':
                        raise _re.error('bad escape \\%s' % esc)
                    esc = dict(zip('abfnrtv', '\a\b\f\n\r\t\v'))[esc]
                x = lit or esc
                out.append(x.encode('latin-1') if byt else x)
            else:
                g = name or num
                if num.startswith('0') and num:
                    raise Unsupported('octal escape')
                g = int(g) if g.isdigit() else self.groupindex.get(g, -1)
                if not 0 <= g <= self.groups:
                    raise (IndexError if name and not name.isdigit() else _re.error)('invalid group reference')
                out.append(g)
        return out

    def subn(self, repl, s, count=0):
        if not is_sym(s):
            if callable(repl):
                out, i, n = [], 0, 0
                for m in self._re.finditer(s):
                    if count and n >= count:
                        break
                    out.extend(codes(s[i:m.start()]))
                    out.extend(codes(repl(m)))
                    i = m.end()
                    n += 1
                out.extend(codes(s[i:]))
                return self._mk(s, out), n
            if not is_sym(repl):
                return self._re.subn(repl, s, count)
        out, i, n = [], 0, 0
        cs = codes(s)
        if not callable(repl) and (is_sym(repl) or '\\' in (repl if isinstance(repl, str) else repl.decode('latin-1'))):
            if is_sym(repl):
                raise Unsupported('regex replacement template')
            tmpl, repl = self._template(repl), None
            repl = lambda m: fmt_concat_like(s, [m.group(p) or s[:0] if isinstance(p, int) else p for p in tmpl])
        it = self.finditer(s) if is_sym(s) else self._re.finditer(s)
        for m in it:
            if count and n >= count:
                break
            out.extend(cs[i:m.start()])
            out.extend(codes(repl(m) if callable(repl) else repl))
            i = m.end()
            n += 1
        out.extend(cs[i:])
        return self._mk(s, out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self._re.split(s, maxsplit)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[i:m.start()])
            out.extend(m.groups())
            i = m.end()
            n += 1
        out.append(s[i:])
        return out


def fmt_concat_like(s, ps):
    out = []
    for p in ps:
        out.extend(codes(p))
    return mk_str(out) if isinstance(s, str) else mk_bytes(out)


def _casevars(vs):
    out = []
    for v in vs:
        c = chr(v)
        out.append(v)
        for x in (c.lower(), c.upper()):
            if len(x) == 1:
                out.append(ord(x))
    return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if is_sym(pattern):
        pattern = concretise_str(pattern)
    k = (pattern, int(flags))
    if k not in _cache:
        _cache[k] = Pattern(pattern, int(flags))
    return _cache[k]


def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def subn(p, r, s, count=0, flags=0): return compile(p, flags).subn(r, s, count)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
