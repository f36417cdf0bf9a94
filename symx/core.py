"""symx core: path-complete symbolic execution by re-execution.

One `Explorer` explores one obligation (a harness function).  The harness runs
against the *instrumented real source* of pyswagger; every branch that depends
on a symbolic value comes here (`branch`), is decided under the current path
condition by z3, and the other feasible side is queued.  A run ends when every
queued prefix has been explored (exhausted) or the budget is used up.
"""
import random
import signal
import time

import z3


class Stop(BaseException):
    """control flow of the engine; never caught by code under test"""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        # code under test may replace the exception while it propagates
        # (__exit__, finally): the path is over all the same
        if EX is not None and EX.dying is None:
            EX.dying = self


class Infeasible(Stop):
    """an assumption is unsatisfiable on this path"""


class Unsupported(Stop):
    """the path needs an operation that the engine does not model"""


class PathTimeout(Stop):
    """the path used up its time"""


class Done(Stop):
    """enough violations"""


EX = None      # the active explorer (one per process)


def ex():
    return EX


class Violation(object):
    def __init__(self, kind, msg, inputs):
        self.kind, self.msg, self.inputs = kind, msg, inputs


class Explorer(object):
    def __init__(self, budget_s=60.0, path_s=25.0, max_paths=10 ** 9,
                 query_ms=20000, max_violations=3, witnesses=200, seed=1):
        self.budget_s, self.path_s, self.max_paths = budget_s, path_s, max_paths
        self.query_ms, self.max_violations = query_ms, max_violations
        self.max_witnesses = witnesses
        self.solver = z3.Solver()
        self.solver.set('timeout', query_ms)
        self.solver.set('random_seed', seed)
        self.worklist = []
        self.stats = dict(paths=0, infeasible=0, decisions=0, queries=0, unknown=0,
                          asserts=0, assert_queries=0, unsupported=0, timeouts=0,
                          concretisations=0, solver_s=0.0)
        self.unsupported_msgs = {}
        self.reached = {}
        self.violations = []
        self.suspects = []      # inputs of paths that could not be followed to their end
        self.witnesses = []
        self.exhausted = False
        self.before_path = []   # callbacks
        self.dying = None
        self.known_ids = ()
        self.known_seen = {}
        self.wit_step = 1

    # ---- one path -----------------------------------------------------
    def _reset(self, prefix):
        self.solver.reset()
        self.solver.set('timeout', self.query_ms)
        self.dying = None
        self.prefix = list(prefix)
        self.depth = 0
        self.known = {}
        self.keep = []
        self.model = None
        self.inputs = []        # (name, kind, value)
        self.names = set()
        self.fresh_n = 0
        self.digits = {}        # expression id -> (expression, base, its digits, all in [0, base))
        self.notes = []
        self.observed = []
        self.dom = []           # the ranges of the inputs

    def _check(self, *assumptions):
        t = time.time()
        self.stats['queries'] += 1
        r = self.solver.check(*assumptions)
        self.stats['solver_s'] += time.time() - t
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                self.stats['unknown'] += 1
                raise Unsupported('solver unknown')
            self.model = self.solver.model()
        return self.model

    def add(self, c):
        self.solver.add(c)

    def define(self, c):
        """a constraint that defines a fresh variable (never infeasible)"""
        self.solver.add(c)
        self.model = None

    def domain(self, c):
        """the range of an input"""
        self.dom.append(c)
        self.define(c)

    def set_digits(self, e, base, ds):
        self.digits[e.get_id()] = (e, base, list(ds))

    def get_digits(self, e, base, n):
        """n digits of e if it is known to be made of that many (bases 16 and 256)"""
        k = self.digits.get(e.get_id())
        if k is None:
            return None
        _, b, ds = k
        if b == base:
            return list(ds) if len(ds) == n else None
        if b == 16 and base == 256 and len(ds) == 2 * n:
            return [z3.simplify(ds[2 * i] * 16 + ds[2 * i + 1]) for i in range(n)]
        if b == 256 and base == 16 and 2 * len(ds) == n:
            out = []
            for d in ds:
                if z3.is_expr(d) and not z3.is_int_value(d):
                    h, l = self.fresh('h'), self.fresh('l')
                    self.define(z3.And(d == h * 16 + l, h >= 0, h <= 15, l >= 0, l <= 15))
                    out += [h, l]
                else:
                    d = d.as_long() if z3.is_expr(d) else d
                    out += [z3.IntVal(d // 16), z3.IntVal(d % 16)]
            self.digits[e.get_id()] = (e, 16, out)
            return list(out)
        return None

    def fresh(self, tag='t', sort='int'):
        self.fresh_n += 1
        n = '%s!%d' % (tag, self.fresh_n)
        return z3.Int(n) if sort == 'int' else z3.Bool(n) if sort == 'bool' else z3.Real(n)

    def branch(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.dying is not None:
            raise self.dying
        k = cond.get_id()
        v = self.known.get(k)
        if v is not None:
            return v
        i = self.depth
        if i < len(self.prefix):
            v = self.prefix[i]
            if not isinstance(v, bool):
                raise Unsupported('nondeterministic replay')
            implied = False
        else:
            m = self._ensure_model()
            ev = m.eval(cond, model_completion=True)
            if z3.is_true(ev):
                v = True
            elif z3.is_false(ev):
                v = False
            else:
                v = None
            neg = z3.Not(cond)
            if v is None:
                r = self._check(cond)
                v = r == z3.sat
                if v:
                    self.model = self.solver.model()
            r = self._check(neg if v else cond)
            implied = r == z3.unsat
            if not implied:
                if r == z3.unknown:
                    self.stats['unknown'] += 1
                self.worklist.append(self.prefix + [not v])
            self.prefix.append(v)
        self.depth += 1
        self.known[k] = v
        self.keep.append(cond)
        if not implied:
            self.stats['decisions'] += 1
            self.solver.add(cond if v else z3.Not(cond))
        return v

    def concretise(self, expr, cap=64):
        """enumerate the values of an int expression; complete by forking"""
        if isinstance(expr, int):
            return expr
        s = z3.simplify(expr)
        if z3.is_int_value(s):
            return s.as_long()
        self.stats['concretisations'] += 1
        n = 0
        while True:
            n += 1
            if n > cap:
                raise Unsupported('too many values to enumerate')
            i = self.depth
            if i < len(self.prefix):
                e = self.prefix[i]
                if not isinstance(e, tuple):
                    raise Unsupported('nondeterministic replay')
                val, v = e
                cond = expr == val
            else:
                m = self._ensure_model()
                val = m.eval(expr, model_completion=True).as_long()
                cond = expr == val
                if self._check(z3.Not(cond)) != z3.unsat:
                    self.worklist.append(self.prefix + [(val, False)])
                v = True
                self.prefix.append((val, True))
            self.depth += 1
            self.stats['decisions'] += 1
            self.solver.add(cond if v else z3.Not(cond))
            if v:
                return val
            self.model = None if self.depth >= len(self.prefix) else self.model

    def assume(self, cond):
        """cond: z3 Bool"""
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.solver.add(cond)
        if self.depth >= len(self.prefix):
            if self.model is not None:
                ev = self.model.eval(cond, model_completion=True)
                if z3.is_true(ev):
                    return
                self.model = None
            self._ensure_model()

    def check(self, cond, msg, known=None):
        """assert cond (z3 Bool) on this path.  known: (id, z3 Bool): violations
        inside of that predicate are the recorded finding of that id"""
        self.stats['asserts'] += 1
        self.reached[msg] = self.reached.get(msg, 0) + 1
        if z3.is_true(cond):
            return
        self.stats['assert_queries'] += 1
        neg = z3.Not(cond)
        if known is not None and known[0] in self.known_ids:
            if known[0] not in self.known_seen:
                r = self._check(neg, known[1])
                if r == z3.sat:
                    m = self.solver.model()
                    self.known_seen[known[0]] = Violation('assert', msg, self.values(m))
            # a new violation has to lie outside of the finding
            r = self._check(neg, z3.Not(known[1]))
            if r == z3.sat:
                self.violation('assert', msg, self.solver.model())
            elif r == z3.unknown:
                self.stats['unknown'] += 1
                self.suspect('unknown assertion: ' + msg)
            self.assume(cond)
            return
        r = self._check(neg)
        if r == z3.unknown:
            self.stats['unknown'] += 1
            self.suspect('unknown assertion: ' + msg)
            return
        if r == z3.sat:
            self.violation('assert', msg, self.solver.model())
        # continue under cond
        self.assume(cond)

    def fail(self, msg, kind='assert'):
        self.stats['asserts'] += 1
        self.reached[msg] = self.reached.get(msg, 0) + 1
        self.model = None
        self.violation(kind, msg, self._ensure_model())

    def violation(self, kind, msg, model):
        self.violations.append(Violation(kind, msg, self.values(model)))
        if len(self.violations) >= self.max_violations:
            raise Done()

    def suspect(self, why):
        if len(self.suspects) >= 400:
            return
        try:
            self.model = None
            self.suspects.append((why, self.values(self._ensure_model())))
        except Stop:
            # no values of this path are known: some within the ranges of its inputs
            if len(self.suspects) < 40:
                for i in range(2):
                    v = self.some_values(i)
                    if v is not None:
                        self.suspects.append((why, v))
        self.dying = None

    def some_values(self, seed):
        r = random.Random('%d-%d' % (seed, self.stats['paths']))
        s = z3.Solver()
        s.set('timeout', self.query_ms)
        s.add(self.dom)
        if s.check() != z3.sat:
            return None
        m = s.model()
        seen = set()
        todo = list(self.dom)
        while todo:
            e = todo.pop()
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort():
                if e.get_id() not in seen:
                    seen.add(e.get_id())
                    for g in (r.randint(32, 126), r.randint(48, 57)):
                        if s.check(e == g) == z3.sat:
                            s.add(e == g)
                            break
            elif z3.is_app(e):
                todo.extend(e.children())
        if s.check() == z3.sat:
            m = s.model()
        return self.values(m)

    def values(self, model):
        from . import values as V
        out = {}
        for name, kind, v in self.inputs:
            out[name] = V.concrete(v, model)
        return out

    # ---- exploration --------------------------------------------------
    def run(self, fn, prefixes=None):
        """fn(): runs the harness once on the active explorer.  What is left of the
        exploration when the budget is used up stays in self.worklist."""
        global EX
        EX = self
        t0 = time.time()
        self.worklist = [[]] if prefixes is None else list(prefixes)

        def on_alarm(*_):
            raise PathTimeout()

        old = signal.signal(signal.SIGALRM, on_alarm)
        try:
            while self.worklist:
                if time.time() - t0 > self.budget_s or self.stats['paths'] >= self.max_paths:
                    return
                prefix = self.worklist.pop()
                self._reset(prefix)
                for cb in self.before_path:
                    cb()
                done = False
                try:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, self.path_s, 1.0)
                        try:
                            fn()
                            done = True
                        finally:
                            signal.setitimer(signal.ITIMER_REAL, 0)
                    except Stop:
                        raise
                    except Exception:
                        if self.dying is not None:
                            raise self.dying
                        raise
                    if self.dying is not None:
                        raise self.dying
                except Infeasible:
                    self.stats['infeasible'] += 1
                    continue
                except Done:
                    self.stats['paths'] += 1
                    return
                except Unsupported as e:
                    self.stats['paths'] += 1
                    self.stats['unsupported'] += 1
                    k = str(e)
                    self.unsupported_msgs[k] = self.unsupported_msgs.get(k, 0) + 1
                    self.suspect(k)
                    continue
                except PathTimeout:
                    self.stats['paths'] += 1
                    self.stats['timeouts'] += 1
                    self.suspect('path timeout')
                    continue
                except RecursionError as e:
                    self.stats['paths'] += 1
                    self.suspect('recursion')
                    continue
                except Exception as e:
                    self.stats['paths'] += 1
                    try:
                        self.fail('unexpected %s: %s' % (type(e).__name__, safe_str(e)), 'exception')
                    except Done:
                        return
                    except Stop:
                        pass
                    continue
                if done:
                    self.stats['paths'] += 1
                    self._witness()
            self.exhausted = True
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.wall = time.time() - t0
            EX = None

    def _witness(self):
        """a sample of the completed paths, to be replayed against the real code"""
        n = self.stats['paths']
        if len(self.witnesses) >= self.max_witnesses or n % self.wit_step:
            return
        if n >= 8 * self.wit_step:
            self.wit_step *= 2
        try:
            m = self._ensure_model()
            v = self.values(m)
            obs = [(k, _obs(x, m)) for k, x in self.observed]
        except Stop:
            self.dying = None
            return
        self.witnesses.append((v, obs))


def _obs(x, m):
    from . import values as V
    return V.concrete(x, m)


def safe_str(e):
    try:
        from . import values as V
        return V.show(e.args)[:300]
    except Stop:
        raise
    except BaseException:
        return '?'
