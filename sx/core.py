"""Path exploration: depth-first over the feasible branches of an
instrumented Python program, deciding every branch with z3.

The program is re-executed from the start for each path; the decisions of the
common prefix are replayed without queries.
"""
import threading
import time

import z3


class Stop(BaseException):
    """Never caught by code under test (its handlers name Exception classes)."""


class Abort(Stop):
    """The path is infeasible or outside the harness's assumptions."""


class Inconclusive(Stop):
    """The engine cannot decide this path."""


class Hang(Stop):
    """The step budget of a path is exhausted."""


class Watchdog:
    """Interrupts a query that exceeds its time."""

    def __init__(self, limit):
        self.limit = limit
        self.cond = threading.Condition()
        self.end = None
        self.thread = None

    def loop(self):
        with self.cond:
            while True:
                if self.end is None:
                    self.cond.wait()
                    continue
                left = self.end - time.time()
                if left > 0:
                    self.cond.wait(left)
                    continue
                z3.main_ctx().interrupt()
                self.cond.wait(0.2)

    def __enter__(self):
        if self.thread is None:
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()
        self.end = time.time() + self.limit
        with self.cond:
            self.cond.notify()

    def __exit__(self, *a):
        # no interrupt once the lock is held
        with self.cond:
            self.end = None


class Engine:
    def __init__(self, query_timeout_ms=15000, step_budget=200000):
        self.solver = z3.Solver()
        self.watch = Watchdog(query_timeout_ms / 1000.0)
        self.quick = Watchdog(0.12)
        self.lia = None
        self.by_lia = 0
        self.simplified = {}
        self.lia_base = []
        self.symbolic_lengths = False
        self.step_budget = step_budget
        self.base = []
        self.trail = []
        self.queries = 0
        self.solver_time = 0.0
        self.decisions = 0
        self.unknowns = 0
        self.deadline = None
        self._model = None
        self.pos = 0
        self.steps = 0
        self.fresh_n = 0
        self.sites = {}
        self.reads = []
        self.base_reads = []
        self.path_defs = []
        self.memo = {}
        self.path_state = {}

    # -- solver -----------------------------------------------------------
    def check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time")
        t = time.time()
        self.queries += 1
        r = self._check(extra)
        self.solver_time += time.time() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _check(self, extra):
        s = self.solver
        if self.symbolic_lengths:
            # lengths and offsets: linear arithmetic settles most queries
            if self.lia is None:
                from sx.lia import Lia

                self.lia = Lia()
            if self.lia.unsat(self.lia_base, self.trail, extra):
                self.by_lia += 1
                return z3.unsat
            with self.quick:
                r = s.check(*extra)
            if r != z3.unknown:
                return r
            if self.lia.unsat_congruent(self.lia_base, self.trail, extra):
                self.by_lia += 1
                return z3.unsat
        with self.watch:
            return s.check(*extra)

    def check_alone(self, *extra):
        """check, in a solver of its own."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time")
        t = time.time()
        self.queries += 1
        s = z3.Tactic("qfufbv").solver()
        s.add(self.solver.assertions())
        s.add(*extra)
        with self.watch:
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        self.solver_time += time.time() - t
        return r

    def add_base(self, c, template=False):
        """Constraint that holds on every path (before exploration starts)."""
        assert not self.trail
        if not template:
            self.lia_base.append(c)
        self.solver.add(c)
        self.base.append(c)

    def model(self):
        """A model of the current path condition."""
        if self._model is None:
            r = self.check()
            if r == z3.unsat:
                raise Abort("infeasible")
            if r != z3.sat:
                raise Inconclusive("solver unknown")
            self._model = self.solver.model()
        return self._model

    def _holds_in_model(self, c):
        return z3.is_true(self.model().eval(c, model_completion=True))

    def simp(self, cond):
        """True, False or the simplified condition."""
        k = cond.get_id()
        r = self.simplified.get(k)
        if r is None:
            if len(self.simplified) > 300000:
                self.simplified.clear()
            c = z3.simplify(cond)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
            r = self.simplified[k] = (cond, c)
        return r[1]

    # -- decisions --------------------------------------------------------
    def _push(self, c):
        self.solver.push()
        self.solver.add(c)

    def branch(self, cond):
        """Return the truth value of cond on this path, exploring both."""
        if cond is True or cond is False:
            return cond
        c = self.simp(cond)
        if c is True or c is False:
            return c
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if not d[0].eq(c):
                raise Inconclusive("non-deterministic re-execution")
            self.pos += 1
            return d[1]
        self.decisions += 1
        m = self.model()
        first = z3.is_true(m.eval(c, model_completion=True))
        notc = z3.Not(c)
        other = notc if first else c
        r = self.check(other)
        if r == z3.sat:
            alt = self.solver.model()
        elif r == z3.unsat:
            alt = None
        else:
            raise Inconclusive("solver unknown")
        self._push(c if first else notc)
        self.trail.append([c, first, alt is not None, alt, {}])
        self.pos += 1
        return first

    def assume(self, cond):
        """Restrict the path to cond; abandon it if that is impossible."""
        if cond is True:
            return
        if cond is False:
            raise Abort("assumption")
        c = self.simp(cond)
        if c is True:
            return
        if c is False:
            raise Abort("assumption")
        if self.pos < len(self.trail):
            self.pos += 1
            return
        if not self._holds_in_model(c):
            r = self.check(c)
            if r == z3.unsat:
                raise Abort("assumption")
            if r != z3.sat:
                raise Inconclusive("solver unknown")
            self._model = self.solver.model()
        self._push(c)
        self.trail.append([c, True, False, None, {}])
        self.pos += 1

    def define(self, cond):
        """Add the definition of fresh variables (always satisfiable)."""
        self.assume(cond)

    def must(self, cond):
        """Does cond hold for every value on the current path?"""
        if cond is True or cond is False:
            return cond
        c = self.simp(cond)
        if c is True or c is False:
            return c
        cache = self.trail[self.pos - 1][4] if self.pos else self.memo
        k = c.get_id()
        if k in cache:
            return cache[k][1]
        if self.pos < len(self.trail):
            # The prefix is being replayed: the answer was cached back then,
            # unless the engine was asked a new question.
            raise Inconclusive("non-deterministic re-execution")
        res = False
        if self._holds_in_model(c):
            r = self.check(z3.Not(c))
            res = r == z3.unsat
        cache[k] = (c, res)
        return res

    def fresh(self, sort, name="v"):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_budget:
            raise Hang("step budget")

    # -- exploration ------------------------------------------------------
    def _backtrack(self):
        while self.trail:
            c, val, has_alt, alt, _, *chosen = self.trail.pop()
            self.solver.pop()
            if has_alt:
                self._push(z3.Not(c) if val else c)
                self.trail.append([c, not val, False, None, {}, *chosen])
                self._model = alt
                return True
        return False

    def explore(self, run, max_paths=None, deadline=None):
        """Yield ('ok', value) / ('abort', why) / ('inconclusive', why) /
        ('hang', why) for each path. While a result is being consumed the
        solver holds that path's condition.
        """
        self.deadline = deadline
        n = 0
        self.complete = False
        while True:
            self.pos = 0
            self.steps = 0
            self.fresh_n = 0
            self.reads = list(self.base_reads)
            self.path_state = {}
            try:
                out = ("ok", run())
            except Abort as e:
                out = ("abort", str(e))
            except Hang as e:
                out = ("hang", str(e))
            except Inconclusive as e:
                out = ("inconclusive", str(e))
            except RecursionError as e:
                out = ("inconclusive", "recursion")
            n += 1
            yield out
            if deadline is not None and time.time() > deadline:
                return
            if max_paths is not None and n >= max_paths:
                return
            # A re-execution that stopped early leaves the solver deeper than
            # pos only if the trail was not consumed: that is an engine error.
            if not self._backtrack():
                self.complete = True
                return


ENGINE = None


def set_engine(e):
    global ENGINE
    ENGINE = e


def eng():
    return ENGINE
